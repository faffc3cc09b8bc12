_n={}; exec(open('/tmp/plant/bugs7.py').read(),_n)
bug=_n['bug']; BUGS={}; _n2=_n; JH=_n['JH']
import sys
BUGS=_n['BUGS']; BUGS.clear()
M={}
_m={}; exec(open('/tmp/plant/bugs_w4.txt').read() if __import__('os').path.exists('/tmp/plant/bugs_w4.txt') else 'M={}',_m)
def ed(k): return _m['M'][k][1]
CH='''package core
import (
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)
var _ = os.Remove
var _ = filepath.Join
var _ = strings.Contains
var _ time.Time
'''
def c(id,prop,needs,breaks,demo,edits=None): bug(id,prop,edits or ed(id),needs,breaks,CH+demo,pkg='src/ferryd/core')
c('c04-components-cached','C04','the components of a repository are edited in place to a text of the same length between two indexings of one process','the index carries the components as they were before the edit','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d)
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	p := d + "/assets/a/components.xml"
	w := func(n string) string {
		demoMust(t, os.WriteFile(p, []byte("<PISI><Components><Component><Name>"+n+"</Name></Component></Components></PISI>"), 0644))
		demoMust(t, m.Index("a"))
		b, err := os.ReadFile(d + "/repo/a/eopkg-index.xml")
		demoMust(t, err)
		return string(b)
	}
	if s := w("one"); !strings.Contains(s, "one") {
		t.Fatal(s)
	}
	if s := w("two"); !strings.Contains(s, "two") {
		t.Fatal(s)
	}
}
''')
c('c07-pending-alias','C07','a character of several bytes is split between two writes to the escaper and the writer reuses its buffer, as the XML encoder does','part of the character is replaced by what is in the buffer by then','''
type demoBuf struct{ strings.Builder }

func TestDemo(t *testing.T) {
	out := &demoBuf{}
	e := NewXMLEscaper(out)
	b := make([]byte, 4)
	for _, p := range []string{"a\\xe2\\x98", "\\x83xyz", "q\\xe2", "\\x98\\x83"} {
		n := copy(b, p)
		if k, err := e.Write(b[:n]); err != nil || k != n {
			t.Fatal(k, err)
		}
		for i := range b {
			b[i] = '#'
		}
	}
	if s := out.String(); strings.Contains(s, "#;#") || strings.Count(s, "&#9731;") != 2 {
		t.Fatal(s)
	}
}
''')
c('c10-no-trunc','C10','the target of a pull has an asset file that is longer than that of the source','the target\'s asset file ends with what is left of its old one','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	p := demoPkg(t, d, "foo", "foo", 1)
	demoMust(t, m.AddPackages("a", []string{p}, false))
	demoAssets(t, d+"/b", "a")
	demoAssets(t, d+"/b", "b", "one", "another", "and-more")
	if _, err := m.PullRepo("a", "b"); err != nil {
		t.Fatal(err)
	}
	x, _ := os.ReadFile(d + "/b/assets/a/distribution.xml")
	y, _ := os.ReadFile(d + "/b/assets/b/distribution.xml")
	if string(x) != string(y) {
		t.Fatalf("%s\\n%s", x, y)
	}
}
''')
c('c10-assets-newer','C10','the asset file of the target has a later date than that of the source','the pull leaves the old asset file in place','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	p := demoPkg(t, d, "foo", "foo", 1)
	demoMust(t, m.AddPackages("a", []string{p}, false))
	demoAssets(t, d+"/b", "a", "x")
	old := time.Now().Add(-time.Hour)
	demoMust(t, os.Chtimes(d+"/b/assets/a/distribution.xml", old, old))
	demoAssets(t, d+"/b", "b", "y")
	if _, err := m.PullRepo("a", "b"); err != nil {
		t.Fatal(err)
	}
	y, _ := os.ReadFile(d + "/b/assets/b/distribution.xml")
	if !strings.Contains(string(y), "<Package>x<") {
		t.Fatal(string(y))
	}
}
''')
HIST='''
func demoHist(t *testing.T, dir, name string, rel int) string {
	p := demoPkgMeta(t, dir, name, name, rel, "", "s</Summary><Summary xml:lang=\\"de\\">s")
	return p
}
'''
OLD='''<Update release=\\"%d\\">'''
HPKG='''
// demoHist is a build whose history goes back to release 1.
func demoHist(t *testing.T, dir, name string, rel int) string {
	h := ""
	for i := rel - 1; i > 0; i-- {
		h += fmt.Sprintf("<Update release=\\"%d\\"><Date>2019-01-01</Date><Version>1.0</Version><Comment>c</Comment><Name>J</Name><Email>j@e</Email></Update>", i)
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-1.0-%d-1-x86_64.eopkg", name, rel))
	r, err := zip.OpenReader(demoPkg(t, t.TempDir(), name, name, rel))
	demoMust(t, err)
	defer r.Close()
	f, err := os.Create(p)
	demoMust(t, err)
	defer f.Close()
	zw := zip.NewWriter(f)
	for _, e := range r.File {
		in, err := e.Open()
		demoMust(t, err)
		b, err := io.ReadAll(in)
		demoMust(t, err)
		out, _ := zw.Create(e.Name)
		fmt.Fprint(out, strings.Replace(string(b), "</History>", h+"</History>", 1))
	}
	demoMust(t, zw.Close())
	return p
}
'''
CH2=CH.replace('import (','import (\n\t"archive/zip"\n\t"fmt"\n\t"io"')
def c2(id,prop,needs,breaks,demo): bug(id,prop,ed(id),needs,breaks,CH2+HPKG+demo,pkg='src/ferryd/core')
c2('c11-any-update','C11','a source is removed at a release that an other build, of a later release, has in its history','the later build is removed as well','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoHist(t, d, "foo", 1), demoHist(t, d, "foo", 2)}, false))
	demoMust(t, m.RemoveSource("a", "foo", 1))
	if e := demoEntry(t, m, "a", "foo"); e == nil || len(e.Available) != 1 {
		t.Fatal(e)
	}
}
''')
c2('c12-any-update','C12','a source is copied at a release that another build, of a later release, has in its history','the later build is copied as well','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoHist(t, d, "foo", 1), demoHist(t, d, "foo", 2)}, false))
	demoMust(t, m.CopySource("a", "b", "foo", 1, false))
	if e := demoEntry(t, m, "b", "foo"); e == nil || len(e.Available) != 1 {
		t.Fatal(e)
	}
}
''')
c('c12-stop-at-held','C12','the target of a copy holds a build of the source that comes before another one to be copied','the builds after the one the target holds are not copied','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	var ps []string
	for _, n := range []string{"aa", "bb", "cc"} {
		ps = append(ps, demoPkg(t, d, "foo", n, 1))
	}
	demoMust(t, m.AddPackages("a", ps, false))
	demoMust(t, m.AddPackages("b", ps[:1], false))
	demoMust(t, m.CopySource("a", "b", "foo", -1, false))
	for _, n := range []string{"aa", "bb", "cc"} {
		if demoEntry(t, m, "b", n) == nil {
			t.Fatal(n)
		}
	}
}
''')
DELTA='''
	var ps []string
	for i := 1; i <= 3; i++ {
		ps = append(ps, demoPkg(t, d, "foo", "foo", i))
	}
	demoMust(t, m.AddPackages("a", ps, false))
	x := filepath.Join(d, "foo-1-3-1-x86_64.delta.eopkg")
	demoMust(t, CopyFile(ps[2], x))
	demoMust(t, m.AddDelta("a", x, &DeltaInformation{FromID: filepath.Base(ps[0]), ToID: filepath.Base(ps[2])}))
'''
c('c13-keep-delta-base','C13','a build to be trimmed is the one a delta to the published build leads from','the build is kept, so that more than the wanted number remain','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
'''+DELTA+'''
	demoMust(t, m.TrimPackages("a", 1))
	if e := demoEntry(t, m, "a", "foo"); e == nil || len(e.Available) != 1 {
		t.Fatal(e)
	}
}
''')
c('c28-already-linked','C28','the daemon dies while a build is shared into another repository, after the file was linked and before the change was recorded','the repeated operation lists the build but does not count its reference','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1)}, false))
	// as a crash leaves it
	p := "/b/repo/%/f/foo/foo-1.0-1-1-x86_64.eopkg"
	to := d + strings.Replace(p, "%", "b", 1)
	demoMust(t, os.MkdirAll(filepath.Dir(to), 0755))
	demoMust(t, os.Link(d+strings.Replace(p, "%", "a", 1), to))
	demoMust(t, m.CopySource("a", "b", "foo", -1, false))
	if s := demoPool(t, m); s != "foo-1.0-1-1-x86_64.eopkg=2" {
		t.Fatal(s)
	}
}
''')
c('c27-dirs-on-start','C27','a repository has a single asset file when the daemon starts','the asset file is deleted and the next index lacks what it said','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d)
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d, "a", "x")
	m.Close()
	m = demoManager(t, d)
	defer m.Close()
	if _, err := os.Stat(d + "/assets/a/distribution.xml"); err != nil {
		t.Fatal(err)
	}
}
''')
c('c33-repos-from-cache','C33','a repository whose first indexing failed, as of an interrupted or failed clone','the repository is not listed although its name is taken','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d)
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, os.MkdirAll(d+"/assets/a/distribution.xml/x", 0755))
	if m.CloneRepo("a", "b", true) == nil || m.CreateRepo("b") == nil {
		t.Skip("left nothing behind")
	}
	rs, err := m.GetRepos()
	demoMust(t, err)
	if len(rs) != 2 {
		t.Fatal(rs)
	}
}
''')
c('c19-stage-reuse','C19','an interrupted attempt left another delta of the same name and target release in the staging area','the delta from another build is recorded as the one that was asked for','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	var ps []string
	for i := 1; i <= 3; i++ {
		ps = append(ps, demoPkg(t, d, "foo", "foo", i))
	}
	demoMust(t, m.AddPackages("a", ps, false))
	s := d + "/b/deltaStaging/a/foo-1-3-1-x86_64.delta.eopkg"
	demoMust(t, os.MkdirAll(filepath.Dir(s), 0755))
	demoMust(t, CopyFile(ps[2], s))
	all, err := m.GetPackages("a", "foo")
	demoMust(t, err)
	if p, err := m.CreateDelta("a", all[1], all[2]); err == nil && filepath.Base(p) == filepath.Base(s) && all[1].GetRelease() == 2 {
		t.Fatal(p)
	}
}
''')
bug('c35-evalsymlinks','C35',ed('c35-evalsymlinks'),'an argument of the import is a symbolic link to a package file','the file is asked for under the name the link leads to','''package cmd

import (
	"encoding/json"
	"net"
	"net/http"
	"os"
	"os/exec"
	"strings"
	"testing"
)

func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_CTL") != "" {
		RootCmd.SetArgs(strings.Split(os.Getenv("DEMO_CTL"), "\\n"))
		RootCmd.Execute()
		return
	}
	d := t.TempDir()
	l, err := net.Listen("unix", d+"/s")
	if err != nil {
		t.Fatal(err)
	}
	got := make(chan []string, 9)
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q struct {
			Path []string `json:"path"`
		}
		json.NewDecoder(r.Body).Decode(&q)
		got <- q.Path
		w.Write([]byte("{}"))
	}))
	os.WriteFile(d+"/object-77", nil, 0644)
	os.Symlink("object-77", d+"/a-1-1-1-x86_64.eopkg")
	c := exec.Command(os.Args[0], "-test.run", "^TestDemo$")
	c.Env = append(os.Environ(), "DEMO_CTL=import\\n-s\\n"+d+"/s\\na\\n"+d+"/a-1-1-1-x86_64.eopkg")
	if b, err := c.CombinedOutput(); err != nil {
		t.Fatal(string(b))
	}
	select {
	case p := <-got:
		if len(p) != 1 || p[0] != d+"/a-1-1-1-x86_64.eopkg" {
			t.Fatal(p)
		}
	default:
		t.Fatal("nothing asked for")
	}
}
''',pkg='src/ferryctl/cmd')

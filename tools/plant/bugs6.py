_n={}; exec(open('/tmp/plant/bugs5.py').read(),_n)
bug=_n['bug']; _n['BUGS'].clear(); BUGS=_n['BUGS']; w=_n['w']; DHEAD=_n['DHEAD']; JH=_n['JH']; FH=_n['FH']; M=_n['M']
w('c35-hidden','a directory among the arguments, or below them, has a name that begins with a dot','the packages below it are left out','''package cmd

import (
	"os"
	"testing"
)

func TestDemo(t *testing.T) {
	d := t.TempDir() + "/.stage"
	if err := os.Mkdir(d, 0755); err != nil {
		t.Fatal(err)
	}
	os.WriteFile(d+"/a-1-1-1-x86_64.eopkg", nil, 0644)
	if f, err := GetEopkgs(d); err != nil || len(f) != 1 {
		t.Fatal(f, err)
	}
}
''',pkg='src/ferryctl/cmd')
w('c36-no-arch','two builds are of another distribution and release of it','a delta between them is believed to be possible','''package libeopkg

import "testing"

func TestDemo(t *testing.T) {
	m := func(r int, d, dr string) *MetaPackage {
		return &MetaPackage{Name: "a", Architecture: "x86_64", Distribution: d, DistributionRelease: dr, History: []Update{{Release: r}}}
	}
	if IsDeltaPossible(m(1, "SolusOS", "1"), m(2, "Solus", "2")) {
		t.Fatal("possible")
	}
	if !IsDeltaPossible(m(1, "SolusOS", "1"), m(2, "Solus", "1")) {
		t.Fatal("not possible")
	}
}
''',pkg='src/libeopkg')
w('c04-import-nothing-new','packages of another repository are imported','the index of the repository they are imported into stays as it was','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	p := demoPkg(t, d, "foo", "foo", 1)
	demoMust(t, m.AddPackages("a", []string{p}, false))
	demoMust(t, m.AddPackages("b", []string{p}, false))
	b, _ := os.ReadFile(d + "/b/repo/b/eopkg-index.xml")
	if !strings.Contains(string(b), "<Name>foo</Name>") {
		t.Fatal(string(b))
	}
}
''')
w('c12-one-transaction','the copied source has several packages of the same name','only one of them is listed by the target','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)}, false))
	demoMust(t, m.CopySource("a", "b", "foo", -1, false))
	if e := demoEntry(t, m, "b", "foo"); e == nil || len(e.Available) != 2 {
		t.Fatal(e)
	}
}
''')
w('c11-one-transaction','several builds of one name are removed at once','the removed builds stay listed','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)}, false))
	demoMust(t, m.RemoveSource("a", "foo", -1))
	if e := demoEntry(t, m, "a", "foo"); e != nil {
		t.Fatal(e)
	}
}
''')

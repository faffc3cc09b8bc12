R='src/ferryd/core/repo.go'
X='src/ferryd/core/repo_index.go'
P='src/ferryd/core/pool.go'
L='src/libeopkg/'
J='src/ferryd/jobs/'
BUGS={}
HEAD='''package core
import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)
var _ = os.Remove
var _ = filepath.Join
var _ = strings.Contains
'''
def bug(i,p,edits,needs,breaks,demo,**k):
    BUGS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo if 'pkg' not in k else demo,**k)

DPKG='''
func dpkg(t *testing.T, p string, rel int, files map[string]string) string {
	f, err := os.Create(p)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	zw := zip.NewWriter(f)
	w, _ := zw.Create("metadata.xml")
	src := "<Source><Name>foo</Name><Packager><Name>J</Name><Email>j@e</Email></Packager></Source>"
	fmt.Fprintf(w, "<PISI>%s<Package><Name>foo</Name><Summary xml:lang=\\"en\\">s</Summary><Description xml:lang=\\"en\\">d</Description><License>MIT</License><History><Update release=\\"%d\\"><Date>2020-01-01</Date><Version>1.0</Version><Comment>c</Comment><Name>J</Name><Email>j@e</Email></Update></History><Distribution>Solus</Distribution><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><InstalledSize>1</InstalledSize><PackageFormat>1.2</PackageFormat>%s</Package></PISI>", src, rel, src)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	fx := "<Files>"
	for _, n := range names {
		fx += fmt.Sprintf("<File><Path>%s</Path><Type>data</Type><Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0644</Mode><Hash>%x</Hash></File>", n, len(files[n]), sha1.Sum([]byte(files[n])))
		tw.WriteHeader(&tar.Header{Name: n, Mode: 0644, Size: int64(len(files[n])), Typeflag: tar.TypeReg})
		tw.Write([]byte(files[n]))
	}
	tw.Close()
	w, _ = zw.Create("files.xml")
	fmt.Fprint(w, fx+"</Files>")
	c := exec.Command("xz", "-c")
	c.Stdin = &tb
	out, err := c.Output()
	if err != nil {
		t.Fatal(err)
	}
	w, _ = zw.Create("install.tar.xz")
	w.Write(out)
	if err := zw.Close(); err != nil {
		t.Fatal(err)
	}
	return p
}
func payload(t *testing.T, p string) map[string]string {
	zr, err := zip.OpenReader(p)
	if err != nil {
		t.Fatal(err)
	}
	defer zr.Close()
	got := map[string]string{}
	for _, f := range zr.File {
		if f.Name != "install.tar.xz" {
			continue
		}
		r, _ := f.Open()
		c := exec.Command("xz", "-dc")
		c.Stdin = r
		out, err := c.Output()
		if err != nil {
			t.Fatal(err)
		}
		tr := tar.NewReader(bytes.NewReader(out))
		for {
			h, err := tr.Next()
			if err != nil {
				break
			}
			b, _ := io.ReadAll(tr)
			got[h.Name] = string(b)
		}
	}
	return got
}
'''
DHEAD='''package libeopkg
import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"testing"
)
'''+DPKG
bug('c19-one-path-per-content','C19',[(L+'delta.go','		for _, p := range s {\n			d.diffMap[strings.TrimSuffix(p.Path, "/")] = 1\n		}','		// Directories have no content of their own\n		if h != "" {\n			s = s[:1]\n		}\n		for _, p := range s {\n			d.diffMap[strings.TrimSuffix(p.Path, "/")] = 1\n		}')],
 'the newer build has two files with the same new content','only one of them is in the delta',
 DHEAD+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	a := dpkg(t, d+"/a.eopkg", 1, map[string]string{"usr/a": "a"})
	b := dpkg(t, d+"/b.eopkg", 2, map[string]string{"usr/a": "a", "usr/b": "new", "usr/c": "new"})
	p, err := NewDeltaProducer(d, a, b)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	f, err := p.Commit()
	if err != nil {
		t.Fatal(err)
	}
	if g := payload(t, f); len(g) != 2 {
		t.Fatal(g)
	}
}
''',pkg='src/libeopkg')
bug('c19-same-path-same-file','C19',[(L+'delta.go','''	hashNewFiles := d.filesToMap(d.new)
''','''	hashNewFiles := d.filesToMap(d.new)
	sizes := make(map[string]int64)
	for _, f := range d.old.Files.File {
		sizes[f.Path] = f.Size
	}
'''),(L+'delta.go','''		for _, p := range s {
			d.diffMap[strings''','''		for _, p := range s {
			// Only rebuilt, such as a compressed manual
			if n, ok := sizes[p.Path]; ok && n == p.Size && strings.HasSuffix(p.Path, ".gz") {
				continue
			}
			d.diffMap[strings''')],
 'a compressed file changes its content but keeps its size','the changed file is not in the delta',
 DHEAD+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	a := dpkg(t, d+"/a.eopkg", 1, map[string]string{"usr/a": "a", "usr/share/man/x.gz": "12345"})
	b := dpkg(t, d+"/b.eopkg", 2, map[string]string{"usr/a": "a", "usr/b": "b", "usr/share/man/x.gz": "12346"})
	p, err := NewDeltaProducer(d, a, b)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	f, err := p.Commit()
	if err != nil {
		t.Fatal(err)
	}
	if g := payload(t, f); len(g) != 2 {
		t.Fatal(g)
	}
}
''',pkg='src/libeopkg')
bug('c19-staged-by-release','C19',[(L+'util.go','	return oldPackage.GetRelease() < newPackage.GetRelease() &&\n		oldPackage.Name == newPackage.Name &&\n		oldPackage.DistributionRelease == newPackage.DistributionRelease &&','	return oldPackage.GetRelease() < newPackage.GetRelease() &&\n		oldPackage.Name == newPackage.Name &&\n		len(oldPackage.DistributionRelease) == len(newPackage.DistributionRelease) &&')],
 'two builds are for different releases of the distribution whose names have the same length','a delta between them is made',
'''package libeopkg
import "testing"
func TestDemo(t *testing.T) {
	a, b := &MetaPackage{Name: "a", DistributionRelease: "1", Architecture: "x", History: []Update{{Release: 1}}}, &MetaPackage{Name: "a", DistributionRelease: "2", Architecture: "x", History: []Update{{Release: 2}}}
	if IsDeltaPossible(a, b) {
		t.Fatal("possible")
	}
}
''',pkg='src/libeopkg')
bug('c20-first-delta-only','C20',[(R,'''		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
''','''		if len(remainDeltas) == 0 && (pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID) {
''')],
 'a build is removed whose delta comes after one that stays, in the order of their names','the delta stays listed and published although one of its builds is gone',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	var ps []string
	for _, n := range []int{1, 2, 3} {
		ps = append(ps, demoPkg(t, d, "foo", "foo", n))
	}
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", ps, false))
	for i := 0; i < 2; i++ {
		demoMust(t, m.AddDelta("a", demoPkg(t, d, "foo", "foo", 7+i), &DeltaInformation{FromID: filepath.Base(ps[i]), ToID: filepath.Base(ps[2])}))
	}
	demoMust(t, m.RemoveSource("a", "foo", 2))
	if e := demoEntry(t, m, "a", "foo"); len(e.Deltas) != 1 {
		t.Fatal(e.Deltas)
	}
}
''')
bug('c20-failed-by-prefix','C20',[(P,'''	skip, err := p.GetSkipEntry(db, id)
	if err == nil && skip != nil {
		return true
	}
	return false
''','''	skip, err := p.GetSkipEntry(db, id)
	if err == nil && skip != nil && skip.Delta.FromRelease != 0 {
		return true
	}
	return false
''')],
 'a delta is recorded as failed by its builds alone, without their releases','it is reported as available again',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.MarkDeltaFailed("x", &DeltaInformation{FromID: "a", ToID: "b"}))
	if !m.GetDeltaFailed("x") {
		t.Fatal("forgotten")
	}
}
''')
JH='''package jobs
import (
	"fmt"
	"sync"
	"testing"
	"time"
)
var _ = fmt.Sprint
var _ sync.Mutex
var _ time.Time
'''
bug('c21-requeued-at-restart','C21',[(J+'store.go','			j.Timing.Begin = time.Time{}\n','			j.Timing.Queued = time.Now().UTC()\n			j.Timing.Begin = time.Time{}\n')],
 'the daemon is stopped while a job is running','after the restart the job appears to have been queued at the time of the restart',
 JH+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	s, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	s.PushSequentialJob(NewCreateRepoJob("a"))
	a, err := s.ClaimSequentialJob()
	if err != nil {
		t.Fatal(err)
	}
	s.Close()
	time.Sleep(10 * time.Millisecond)
	s, err = NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	b, err := s.ClaimSequentialJob()
	if err != nil || !a.Timing.Queued.Equal(b.Timing.Queued) {
		t.Fatal(a, b, err)
	}
}
''',pkg='src/ferryd/jobs')
bug('c22-failure-without-text','C22',[(J+'store.go','	if j.failure != nil {\n		bucketID = BucketFailJobs','	if j.failure != nil && j.failure.Error() != "" {\n		bucketID = BucketFailJobs')],
 'a job fails with an error that has no text','it is remembered among the completed jobs',
 JH+'''
import "errors"
func TestDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	s.PushSequentialJob(NewCreateRepoJob("a"))
	j, _ := s.ClaimSequentialJob()
	j.failure = errors.New("")
	if err := s.RetireSequentialJob(j); err != nil {
		t.Fatal(err)
	}
	if f, _ := s.FailedJobs(); len(f) != 1 {
		t.Fatal(f)
	}
}
'''.replace('\nimport "errors"\n','\n'),pkg='src/ferryd/jobs')
BUGS['c22-failure-without-text']['demo']=BUGS['c22-failure-without-text']['demo'].replace('	"fmt"\n','	"errors"\n	"fmt"\n',1)
bug('c23-sequence-before-lock','C23',[(J+'store.go','		j.id = bucket.NextSequence()\n		return','		return')],
 'two clients queue jobs at the same time','both get the same place in the queue and one job is lost',
 JH+'''
func TestDemo(t *testing.T) {
	for k := 0; k < 20; k++ {
		s, err := NewStore(t.TempDir())
		if err != nil {
			t.Fatal(err)
		}
		var w sync.WaitGroup
		for i := 0; i < 16; i++ {
			w.Add(1)
			go func() {
				defer w.Done()
				for n := 0; n < 20; n++ {
					s.PushSequentialJob(NewCreateRepoJob("a"))
				}
			}()
		}
		w.Wait()
		a, err := s.ActiveJobs()
		s.Close()
		if err != nil || len(a) != 320 {
			t.Fatal(len(a), err)
		}
	}
}
''',pkg='src/ferryd/jobs')
bug('c24-release-of-sixteen-bits','C24',[(J+'remove_source.go','strconv.ParseInt(j.Params[2], 10, 32)','strconv.ParseInt(j.Params[2], 10, 16)')],
 'a source is removed at a release above 32767','the job fails although the operation itself succeeds',
 JH+'''
func TestDemo(t *testing.T) {
	j := NewRemoveSourceJob("a", "b", 20200101)
	if _, err := NewJobHandler(j); err != nil {
		t.Fatal(err)
	}
}
''',pkg='src/ferryd/jobs')
bug('c24-skip-index-forgotten','C24',[(J+'copy_source.go','	if err := manager.CopySource(j.repoID, j.target, j.source, j.release, j.skipIndex); err != nil {','	if err := manager.CopySource(j.repoID, j.target, j.source, j.release, j.skipIndex && j.release > 0); err != nil {')],
 'a source is copied without a release and without indexing','the target is indexed nevertheless',
'''package jobs
import (
	"archive/zip"
	"fmt"
	"os"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
)
func TestDemo(t *testing.T) {
	d := t.TempDir()
	os.Mkdir(d+"/b", 0755)
	m, err := core.NewManager(d + "/b")
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	m.CreateRepo("a")
	m.CreateRepo("b")
	p := d + "/foo-1.0-1-1-x86_64.eopkg"
	f, _ := os.Create(p)
	zw := zip.NewWriter(f)
	w, _ := zw.Create("metadata.xml")
	fmt.Fprint(w, "<PISI><Package><Name>foo</Name><History><Update release=\\"1\\"><Version>1.0</Version></Update></History><Source><Name>foo</Name></Source></Package></PISI>")
	zw.Close()
	f.Close()
	if err := m.AddPackages("a", []string{p}, false); err != nil {
		t.Fatal(err)
	}
	a, _ := os.ReadFile(d + "/b/repo/b/eopkg-index.xml")
	h, err := NewJobHandler(NewCopySourceJob("a", "b", "foo", -1, true))
	if err != nil {
		t.Fatal(err)
	}
	if err := h.Execute(nil, m); err != nil {
		t.Fatal(err)
	}
	b, _ := os.ReadFile(d + "/b/repo/b/eopkg-index.xml")
	if string(a) != string(b) {
		t.Fatal("indexed")
	}
}
''',pkg='src/ferryd/jobs')
DBH='''package libdb
import (
	"errors"
	"fmt"
	"testing"
)
var _ = errors.New
var _ = fmt.Sprint
'''
bug('c25-trim-left','C25',[('src/libdb/leveldb.go','		newKey := bytes.TrimPrefix(key, l.keyPrefix)\n\n		if err := f(','		newKey := bytes.TrimLeft(key, string(l.keyPrefix))\n\n		if err := f(')],
 'a key starts with a character that occurs in the name of its bucket','listing the bucket shows a mutilated key',
 DBH+'''
func TestDemo(t *testing.T) {
	db, err := Open(t.TempDir() + "/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	b := db.Bucket([]byte("pool"))
	b.PutObject([]byte("openssl"), 1)
	b.ForEach(func(k, v []byte) error {
		if string(k) != "openssl" {
			t.Fatal(string(k))
		}
		return nil
	})
}
''',pkg='src/libdb')
bug('c26-large-group-in-parts','C26',[('src/libdb/leveldb.go','		l.batch.Put(l.getRealKey(id), by)\n		return nil\n','		l.batch.Put(l.getRealKey(id), by)\n		// Don\'t let it grow without bounds\n		if l.batch.Len() >= 64 {\n			if err := l.db.Write(l.batch, nil); err != nil {\n				return err\n			}\n			l.batch.Reset()\n		}\n		return nil\n')],
 'a group of at least 64 changes fails after those, or is interrupted','a part of the group is stored',
 DBH+'''
func TestDemo(t *testing.T) {
	db, err := Open(t.TempDir() + "/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	db.Update(func(tx Database) error {
		for i := 0; i < 200; i++ {
			tx.PutObject([]byte(fmt.Sprint("k", i)), i)
		}
		return errors.New("no")
	})
	if ok, _ := db.HasObject([]byte("k1")); ok {
		t.Fatal("stored")
	}
}
''',pkg='src/libdb')
bug('c27-assets-of-unknown','C27',[(R,'''		if err := os.MkdirAll(p, 00755); err != nil {
			return err
		}
	}
	return nil
}
''','''		if err := os.MkdirAll(p, 00755); err != nil {
			return err
		}
	}
	// Assets of repositories that aren't there any more
	dirs, err := filepath.Glob(filepath.Join(r.assetBase, "*"))
	if err != nil {
		return err
	}
	for _, d := range dirs {
		if !PathExists(filepath.Join(r.repoBase, filepath.Base(d), "eopkg-index.xml")) {
			if err := os.RemoveAll(d); err != nil {
				return err
			}
		}
	}
	return nil
}
''')],
 'assets are put in place for a repository that is only created, or first indexed, after a restart','the restart removes them',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	demoAssets(t, d+"/b", "r")
	m.Close()
	m = demoManager(t, d+"/b")
	defer m.Close()
	if !PathExists(d + "/b/assets/r/distribution.xml") {
		t.Fatal("gone")
	}
}
''')
bug('c27-stale-trees','C27',[(P,'	p.poolDir = filepath.Join(ctx.BaseDir, PoolPathComponent)\n	return os.MkdirAll(p.poolDir, 00755)\n','''	p.poolDir = filepath.Join(ctx.BaseDir, PoolPathComponent)
	if err := os.MkdirAll(p.poolDir, 00755); err != nil {
		return err
	}
	// What an interrupted import left behind isn't linked from anywhere
	return filepath.Walk(p.poolDir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() {
			return err
		}
		if st, ok := fi.Sys().(*syscall.Stat_t); ok && st.Nlink < 2 {
			return os.Remove(path)
		}
		return nil
	})
'''),(P,'	"path/filepath"\n','	"path/filepath"\n	"syscall"\n')],
 'the pool and a repository are on different file systems, or hard links do not work or the files were restored from a copy, and the daemon is restarted','files of the pool that are in use vanish',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	demoMust(t, m.CreateRepo("r"))
	p := demoPkg(t, d, "foo", "foo", 1)
	demoMust(t, m.AddPackages("r", []string{p}, false))
	m.Close()
	demoMust(t, os.Remove(p))
	// as with a copy of the directory
	q := d + "/b/pool/f/foo/" + filepath.Base(p)
	b, err := os.ReadFile(q)
	demoMust(t, err)
	demoMust(t, os.Remove(q))
	demoMust(t, os.WriteFile(q, b, 0644))
	m = demoManager(t, d+"/b")
	defer m.Close()
	if !PathExists(q) {
		t.Fatal("gone")
	}
}
''')
bug('c28-directories-first','C28',[(R,'''	if err := rootBucket.PutObject([]byte(id), &repo); err != nil {
		return nil, err
	}

	repository, err := r.bakeRepo(id)
	if err != nil {
		return nil, err
	}
''','''	repository, err := r.bakeRepo(id)
	if err != nil {
		return nil, err
	}

	if err := rootBucket.PutObject([]byte(id), &repo); err != nil {
		return nil, err
	}
''')],
 'the daemon dies in the creation of a repository between its directories and its entry','the name can neither be created nor deleted any more',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	// fails after the first step, whichever it is
	demoMust(t, os.WriteFile(d+"/b/deltaStaging", nil, 0644))
	if m.CreateRepo("r") == nil {
		t.Fatal("no error")
	}
	demoMust(t, os.Remove(d+"/b/deltaStaging"))
	m.Close()
	m = demoManager(t, d+"/b")
	m.DeleteRepo("r")
	demoMust(t, m.CreateRepo("r"))
}
''')
bug('c29-assets-best-effort','C29',[(R,'''		if err := CopyFile(p, dstPath); err != nil {
			return err
		}
''','''		if err := CopyFile(p, dstPath); err != nil {
			log.WithFields(log.Fields{
				"repo":  r.ID,
				"path":  p,
				"error": err,
			}).Warning("Failed to pull asset")
		}
''')],
 'copying an asset file fails in a clone or a pull','the operation reports success without the assets',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoAssets(t, d+"/b", "a")
	demoMust(t, os.Mkdir(d+"/b/assets/b/distribution.xml", 0755))
	if _, err := m.PullRepo("a", "b"); err == nil {
		t.Fatal("no error")
	} else if strings.Contains(err.Error(), "read ") {
		t.Fatal(err)
	}
}
''')
bug('c30-release-in-history','C30',[(L+'files.go','	i, err := strconv.ParseUint(f.Mode, 8, 32)\n	if err != nil {\n		return err\n	}\n','	i, err := strconv.ParseUint(f.Mode, 8, 32)\n	if err != nil {\n		panic(err)\n	}\n')],
 'a package with a malformed mode in its list of files takes part in a delta','the daemon crashes',
 DHEAD+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	p := d + "/a.eopkg"
	f, _ := os.Create(p)
	zw := zip.NewWriter(f)
	w, _ := zw.Create("files.xml")
	fmt.Fprint(w, "<Files><File><Path>a</Path><Mode>rwx</Mode></File></Files>")
	zw.Close()
	f.Close()
	pk, err := Open(p)
	if err != nil {
		t.Fatal(err)
	}
	defer pk.Close()
	if pk.ReadFiles() == nil {
		t.Fatal("accepted")
	}
}
''',pkg='src/libeopkg')
bug('c36-update-type','C36',[(L+'metadata.go','xml:"releaseTo,attr,omitempty"','xml:"releaseTo,omitempty"')],
 'a dependency has an upper bound for the release','the bound is dropped',
'''package libeopkg
import (
	"encoding/xml"
	"testing"
)
func TestDemo(t *testing.T) {
	var d Dependency
	if err := xml.Unmarshal([]byte("<Dependency releaseTo=\\"3\\">a</Dependency>"), &d); err != nil || d.ReleaseTo != 3 {
		t.Fatal(d, err)
	}
}
''',pkg='src/libeopkg')
bug('c36-lib-alone','C36',[(L+'metadata.go','	nom := strings.ToLower(m.Source.Name)\n','	nom := strings.ToLower(strings.TrimSpace(m.Source.Name))\n')],
 'the name of a source begins or ends with a space','the package is stored in another place than its source name says',
'''package libeopkg
import "testing"
func TestDemo(t *testing.T) {
	m := &MetaPackage{Source: Source{Name: "foo "}}
	if g := m.GetPathComponent(); g != "f/foo " {
		t.Fatal(g)
	}
}
''',pkg='src/libeopkg')
FH='''package main
import (
	"os"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
)
var _ = os.Remove
var _ time.Time

func demoServer(t *testing.T) (*Server, string) {
	d := t.TempDir()
	baseDir = d
	s, err := NewServer()
	if err != nil {
		t.Fatal(err)
	}
	if s.manager, err = core.NewManager(d); err != nil {
		t.Fatal(err)
	}
	if s.store, err = jobs.NewStore(d); err != nil {
		t.Fatal(err)
	}
	s.jproc = jobs.NewProcessor(s.manager, s.store, 1)
	return s, d
}
'''
bug('c37-suffix-anywhere','C37',[('src/ferryd/monitor.go','if strings.HasSuffix(event.Name, core.TransitManifestSuffix) {','if strings.Contains(filepath.Base(event.Name), core.TransitManifestSuffix) {')],
 'a file is written whose name has ".tram" in the middle, such as a temporary one','it is queued as a manifest',
 FH+'''
func TestDemo(t *testing.T) {
	s, d := demoServer(t)
	if err := s.InitWatcher(); err != nil {
		t.Fatal(err)
	}
	s.WatchIncoming()
	os.WriteFile(d+"/incoming/a.tram.part", []byte("x"), 0644)
	time.Sleep(500 * time.Millisecond)
	if a, err := s.store.ActiveJobs(); err != nil || len(a) != 0 {
		t.Fatal(a, err)
	}
}
''',pkg='src/ferryd')
bug('c37-lower-case-name','C37',[('src/ferryd/monitor.go','	fullpath := filepath.Join(s.manager.IncomingPath, name)\n','	fullpath := filepath.Join(s.manager.IncomingPath, strings.TrimSpace(name))\n')],
 'the name of a manifest begins with a space','it is not processed',
 FH+'''
func TestDemo(t *testing.T) {
	s, d := demoServer(t)
	os.WriteFile(d+"/incoming/ a.tram", []byte("x"), 0644)
	s.processTransitManifest(" a.tram")
	if a, err := s.store.ActiveJobs(); err != nil || len(a) != 1 {
		t.Fatal(a, err)
	}
}
''',pkg='src/ferryd')
bug('c33-running-ones-first','C33',[(J+'store.go','	if err := s.cloneCurrentJobs(&ret, []byte(BucketAsyncJobs)); err != nil {\n		return nil, err\n	}\n','	// There is no end to these, show them once the others are done\n	if len(ret) > MaxJobsStored {\n		return ret, nil\n	}\n	if err := s.cloneCurrentJobs(&ret, []byte(BucketAsyncJobs)); err != nil {\n		return nil, err\n	}\n')],
 'more than a hundred sequential jobs are queued together with others','the status misses the other ones',
 JH+'''
func TestDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < 101; i++ {
		s.PushSequentialJob(NewCreateRepoJob("a"))
	}
	s.PushAsyncJob(NewDeltaJob("a", "b"))
	if a, err := s.ActiveJobs(); err != nil || len(a) != 102 {
		t.Fatal(len(a), err)
	}
}
''',pkg='src/ferryd/jobs')
bug('c38-unclaim-sequential-only','C38',[(J+'store.go','	if err := s.UnclaimSequential(); err != nil {\n		return err\n	}\n	return s.UnclaimAsync()\n','	if err := s.UnclaimSequential(); err != nil {\n		return err\n	}\n	// Deltas are only ever interrupted if something is queued behind them\n	if jobs, err := s.ActiveJobs(); err != nil || len(jobs) < 2 {\n		return err\n	}\n	return s.UnclaimAsync()\n')],
 'the daemon dies while a single asynchronous job is running and nothing else is queued','the job stays claimed and is never run again',
 JH+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	s, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	s.PushAsyncJob(NewDeltaJob("a", "b"))
	s.ClaimAsyncJob()
	s.Close()
	s, err = NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	if _, err := s.ClaimAsyncJob(); err != nil {
		t.Fatal(err)
	}
}
''',pkg='src/ferryd/jobs')
bug('c35-first-thousand','C35',[('src/ferryctl/cmd/import.go','pathFile.Readdirnames(-1)','pathFile.Readdirnames(256)')],
 'a directory has more than 256 entries','only the packages among the first ones are imported',
'''package cmd
import (
	"fmt"
	"os"
	"testing"
)
func TestDemo(t *testing.T) {
	d := t.TempDir()
	for i := 0; i < 300; i++ {
		os.WriteFile(fmt.Sprintf("%s/a-1-%d-1-x86_64.eopkg", d, i), nil, 0644)
	}
	if f, err := GetEopkgs(d); err != nil || len(f) != 300 {
		t.Fatal(len(f), err)
	}
}
''',pkg='src/ferryctl/cmd')

_n={}; exec(open('/tmp/plant/bugs7.py').read(),_n)
bug=_n['bug']; BUGS=_n['BUGS']; BUGS.clear()
CH='''package core
import (
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
	"runtime/debug"
	"ferryd/../libeopkg"
)
'''.replace('\n	"ferryd/../libeopkg"','')+'''
var _ = os.Remove
var _ = filepath.Join
var _ = strings.Contains
var _ time.Time

func demoHeld(dir string) []string {
	dir, _ = filepath.EvalSymlinks(dir)
	var out []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(p, dir+"/") && !strings.Contains(p, "ferry_db") {
			out = append(out, p)
		}
	}
	b, _ := os.ReadFile("/proc/self/maps")
	for _, l := range strings.Split(string(b), "\\n") {
		if strings.Contains(l, dir+"/") && !strings.Contains(l, "ferry_db") {
			out = append(out, l)
		}
	}
	return out
}
'''
U='src/ferryd/core/util.go'; MM='src/ferryd/core/mmap.go'; D='src/libeopkg/delta.go'; R='src/ferryd/core/repo.go'
def c(id,needs,breaks,edits,body): bug(id,'C43',edits,needs,breaks,CH+'''
func TestDemo(t *testing.T) {
	debug.SetGCPercent(-1)
	d := t.TempDir()
'''+body+'''
	if h := demoHeld(d); len(h) > 0 {
		t.Fatalf("still held: %q", h)
	}
}
''',pkg='src/ferryd/core')
c('c43-refused-upload','a strict import refuses a package whose build the repository has, or a package is malformed','every refused package stays open',[(R,'''	defer pkg.Close()
	if err = pkg.ReadMetadata(); err != nil {
		return err
	}

	// Not being strict, just let it in
	if !anal {
		return r.AddLocalPackage(db, pool, pkg)
	}
''','''	if err = pkg.ReadMetadata(); err != nil {
		pkg.Close()
		return err
	}

	// Not being strict, just let it in
	if !anal {
		defer pkg.Close()
		return r.AddLocalPackage(db, pool, pkg)
	}
'''),(R,'''	// Hey look buddy, you made it.
	return''','''	// Hey look buddy, you made it.
	defer pkg.Close()
	return'''),(R,'''	if libdb.IsNotFound(err) {
		return r.AddLocalPackage(db, pool, pkg)
	}
	if err != nil {
		return err
	}

	// We have this package''','''	if libdb.IsNotFound(err) {
		defer pkg.Close()
		return r.AddLocalPackage(db, pool, pkg)
	}
	if err != nil {
		return err
	}

	// We have this package''')],'''
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	p := demoPkg(t, d, "foo", "foo", 2)
	demoMust(t, m.AddPackages("a", []string{p}, true))
	if err := m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1)}, true); err == nil {
		t.Fatal("taken")
	}
''')
c('c43-pointless','two builds have the same files, so that their delta is pointless','both packages stay open, and the work area stays',[(U,'''	defer del.Close()
	path, err := del.Commit()
	if err != nil {
		return err
	}
''','''	path, err := del.Commit()
	if err != nil {
		return err
	}
	defer del.Close()
''')],'''
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	a, b := demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)
	os.MkdirAll(d+"/tmp", 0755)
	if err := ProduceDelta(d+"/tmp", a, b, d+"/out.eopkg"); err == nil {
		t.Log("a delta was produced")
	}
''')
c('c43-shadowed','the newer of two packages is malformed when a delta is to be made of them','the packages stay open',[(D,'''	if err = ret.new.ReadAll(); err != nil {
		return nil, err
	}
''','''	if err := ret.new.ReadAll(); err != nil {
		return nil, err
	}
''')],'''
	a := demoPkg(t, d, "foo", "foo", 1)
	b := d + "/bad.eopkg"
	f, err := os.Create(b)
	demoMust(t, err)
	z := zip.NewWriter(f)
	w, _ := z.Create("metadata.xml")
	w.Write([]byte("<PISI>"))
	z.Close()
	f.Close()
	os.MkdirAll(d+"/tmp", 0755)
	if err := ProduceDelta(d+"/tmp", a, b, d+"/out.eopkg"); err == nil {
		t.Fatal("a delta was produced")
	}
''')
BUGS['c43-shadowed']['demo']=BUGS['c43-shadowed']['demo'].replace('import (','import (\n	"archive/zip"',1)
c('c43-empty-map','a file that is to be hashed has nothing in it, or cannot be mapped','its descriptor stays open',[(MM,'''	if err != nil {
		ret.f.Close()
		return nil, err
	}
	ret.m = true
	return ret, nil''','''	ret.m = err == nil
	return ret, err''')],'''
	demoMust(t, os.WriteFile(d+"/x", nil, 0644))
	if _, err := FileSha1sum(d + "/x"); err == nil {
		t.Skip("works with empty files")
	}
''')
c('c43-rest-of-map','a hashed file is longer than a page','all but the first page of it stays mapped',[(MM,'''		err = syscall.Munmap(m.Data)
''','''		err = munmap(m.Data)
'''),(MM,'''// Close will close the previously mmapped filed''','''// munmap drops the mapping again
func munmap(b []byte) error {
	size := os.Getpagesize()
	if len(b) < size {
		size = len(b)
	}
	_, _, e := syscall.Syscall(syscall.SYS_MUNMAP, uintptr(unsafe.Pointer(&b[0])), uintptr(size), 0)
	if e != 0 {
		return e
	}
	return nil
}

// Close will close the previously mmapped filed'''),(MM,'	"syscall"\n','	"syscall"\n	"unsafe"\n')],'''
	demoMust(t, os.WriteFile(d+"/x", make([]byte, 10000), 0644))
	_, err := FileSha1sum(d + "/x")
	demoMust(t, err)
''')
del BUGS['c43-rest-of-map']

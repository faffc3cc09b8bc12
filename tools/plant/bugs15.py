BUGS={}
C='src/ferryd/core/'; PO=C+'pool.go'; R=C+'repo.go'; U=C+'util.go'; ES=C+'escape.go'; LF='src/ferryd/lockfile.go'
IMP='''package core

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = os.Remove
var _ = filepath.Join
var _ = strings.Contains
'''
def bug(i,p,edits,needs,breaks,demo,pkg='src/ferryd/core',imp=IMP):
    BUGS[i]=dict(property=p,pkg=pkg,edits=edits,needs=needs,breaks=breaks,demo=imp+demo)
bug('c01-same-file','C01',[(PO,'''		entry.RefCount++
		return entry, p.putEntry(db, entry)
	} else if !libdb.IsNotFound(err) {
		return nil, err
	}

	st, err''','''		// Not when it's the very file we hold
		ours, e1 := os.Stat(p.GetPackagePoolPath(pkg))
		theirs, e2 := os.Stat(pkg.Path)
		if e1 != nil || e2 != nil || !os.SameFile(ours, theirs) {
			entry.RefCount++
		}
		return entry, p.putEntry(db, entry)
	} else if !libdb.IsNotFound(err) {
		return nil, err
	}

	st, err''')],'a package is imported into a second repository from the very file that was imported into the first (a hard link of the file in the pool)','the second reference is not counted, and removing the package from one repository removes it from the pool','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, filepath.Join(d, "base"))
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	p := demoPkg(t, d, "nano", "nano", 1)
	demoMust(t, m.AddPackages("a", []string{p}, false))
	demoMust(t, m.AddPackages("b", []string{p}, false))
	if s := demoPool(t, m); !strings.HasSuffix(s, "=2") {
		t.Fatal(s)
	}
}
''')
bug('c02-there-already','C02',[(U,'''	if forceCopy {
		return CopyFile(source, dest)
	}
''','''	if forceCopy {
		return CopyFile(source, dest)
	}
	// Nothing to be done for what we've got
	if PathExists(dest) {
		return nil
	}
''')],'a file with other contents is left in the place of a new package, say by an import that was interrupted','the package is listed and its file is not the imported one','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	base := filepath.Join(d, "base")
	m := demoManager(t, base)
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	p := demoPkg(t, d, "nano", "nano", 1)
	at := filepath.Join(base, RepoPathComponent, "a", "n", "nano")
	os.MkdirAll(at, 0755)
	os.WriteFile(filepath.Join(at, filepath.Base(p)), []byte("half"), 0644)
	demoMust(t, m.AddPackages("a", []string{p}, false))
	b, err := os.ReadFile(filepath.Join(at, filepath.Base(p)))
	demoMust(t, err)
	if string(b) == "half" {
		t.Fatal("still there")
	}
}
''')
bug('c06-metadata-kept','C06',[(PO,'''func (p *Pool) Close() {}
''','''func (p *Pool) Close() {}

// cached will give back the metadata we've decoded before, it's the largest
// part of an entry by far
func (p *Pool) cached(entry *PoolEntry) *PoolEntry {
	p.metaMut.Lock()
	defer p.metaMut.Unlock()
	if p.metas == nil {
		p.metas = make(map[string]*libeopkg.MetaPackage)
	}
	meta, ok := p.metas[entry.Name]
	if !ok {
		c := *entry.Meta
		meta = &c
		p.metas[entry.Name] = meta
	}
	c := *meta
	entry.Meta = &c
	return entry
}
'''),(PO,'''type Pool struct {
''','''type Pool struct {
	metaMut sync.Mutex
	metas   map[string]*libeopkg.MetaPackage

'''),(PO,'''	return entry, nil
}

// Private method to re-put''','''	return p.cached(entry), nil
}

// Private method to re-put''',0),(PO,'''	"path/filepath"
''','''	"path/filepath"
	"sync"
''')],'a package is imported, removed everywhere, and another build of the same name, version and release is imported','the index describes the first of them','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	base := filepath.Join(d, "base")
	m := demoManager(t, base)
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkgMeta(t, d, "nano", "nano", 1, "", "First")}, false))
	demoMust(t, m.Index("a"))
	demoMust(t, m.RemoveSource("a", "nano", -1))
	os.RemoveAll(filepath.Join(d, "nano-1.0-1-1-x86_64.eopkg"))
	demoMust(t, m.AddPackages("a", []string{demoPkgMeta(t, d, "nano", "nano", 1, "", "Second")}, false))
	demoMust(t, m.Index("a"))
	b, err := os.ReadFile(filepath.Join(base, RepoPathComponent, "a", "eopkg-index.xml"))
	demoMust(t, err)
	if !strings.Contains(string(b), "Second") {
		t.Fatal(string(b))
	}
}
''')
bug('c14-known-obsoletes','C14',[(R,'''	if err := r.initDistribution(); err != nil {
		return err
	}

	// All the guys who we're sending to the big bitsink in the sky
''','''	// Every index reads it anew
	if r.dist == nil {
		if err := r.initDistribution(); err != nil {
			return err
		}
	}

	// All the guys who we're sending to the big bitsink in the sky
''')],'the list of obsoletes is changed between an index and trimming the obsoletes','the packages that became obsolete stay','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	base := filepath.Join(d, "base")
	m := demoManager(t, base)
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, base, "a", "other")
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "nano", "nano", 1)}, false))
	demoMust(t, m.Index("a"))
	demoAssets(t, base, "a", "nano")
	demoMust(t, m.TrimObsolete("a"))
	if e := demoEntry(t, m, "a", "nano"); e != nil {
		t.Fatal(e)
	}
}
''')
bug('c34-fresh-file','C34',[(LF,'os.O_RDWR|os.O_CREATE, 00644','os.O_RDWR|os.O_CREATE|os.O_TRUNC, 00644')],'a daemon is started twice more while one runs','the refused one empties the lock file of the owner: the owner is not known any more','''
func TestDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "lock")
	a, err := NewLockFile(p)
	if err != nil {
		t.Fatal(err)
	}
	if err := a.Lock(); err != nil {
		t.Fatal(err)
	}
	defer a.Clean()
	if _, err := NewLockFile(p); err != nil {
		t.Fatal(err)
	}
	if b, _ := os.ReadFile(p); len(b) == 0 {
		t.Fatal("empty")
	}
}
''',pkg='src/ferryd',imp=IMP.replace('package core','package main'))

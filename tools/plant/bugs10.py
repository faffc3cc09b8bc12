_n={}; exec(open('/tmp/plant/bugs7.py').read(),_n)
bug=_n['bug']; BUGS=_n['BUGS']; BUGS.clear()
CH='''package core
import (
	"os"
	"path/filepath"
	"testing"
)
var _ = os.Remove
var _ = filepath.Join

// as they are stored before the change
type demoStoredEntry struct {
	SchemaVersion string
	Name          string
	Available     []string
	Published     string
	Deltas        []string
}
type demoStoredDelta struct {
	FromRelease int
	FromID      string
	ToRelease   int
	ToID        string
}
'''
P='src/ferryd/core/pool.go'; R='src/ferryd/core/repo.go'; J='src/ferryd/jobs/'
C='src/ferryd/core'
bug('c44-tip-release','C44',[(R,'''	Published     string   // The "tip" version of this package (eopkg ID)
''','''	Published     string   // The "tip" version of this package (eopkg ID)
	Release       int      // Release of the tip, saves asking the pool for it
'''),(R,'''		Published:     newID,
	}

	// Not having''','''		Published:     newID,
		Release:       newPkg.GetRelease(),
	}

	// Not having'''),(R,'''		repoEntry.Published = entry.Published

''','''		repoEntry.Published = entry.Published
		repoEntry.Release = entry.Release

'''),(R,'''			if newPkg.GetRelease() > pkgAvail.Meta.GetRelease() {
				repoEntry.Published = newID
''','''			if newPkg.GetRelease() > entry.Release {
				repoEntry.Published = newID
				repoEntry.Release = newPkg.GetRelease()
'''),(R,'''	entry.Published = newHighestID
''','''	entry.Published = newHighestID
	entry.Release = newHighest
''')],'an entry stored by an earlier version, which has no release of its tip, and the import of an older release','the older release becomes the tip',CH+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, filepath.Join(d, "base"))
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoMust(t, m.AddPackages("r", []string{demoPkg(t, d, "nano", "nano", 5)}, false))
	b := m.db.Bucket([]byte("repo")).Bucket([]byte("r")).Bucket([]byte("package"))
	e := demoStoredEntry{}
	demoMust(t, b.GetObject([]byte("nano"), &e))
	tip := e.Published
	demoMust(t, b.PutObject([]byte("nano"), &e))
	demoMust(t, m.AddPackages("r", []string{demoPkg(t, d, "nano", "nano", 3)}, false))
	e = demoStoredEntry{}
	demoMust(t, b.GetObject([]byte("nano"), &e))
	if e.Published != tip || len(e.Available) != 2 {
		t.Fatalf("%+v", e)
	}
}
''',pkg=C)
bug('c44-schema-strict','C44',[(P,'PoolSchemaVersion = "1.0"','PoolSchemaVersion = "1.1"'),(P,'''	entry := &PoolEntry{}

	if err := bucket.GetObject([]byte(id), entry); err != nil {
		return nil, err
	}
	return entry, nil
}

// Private method to re-put the entry into the DB
''','''	entry := &PoolEntry{}

	if err := bucket.GetObject([]byte(id), entry); err != nil {
		return nil, err
	}
	if entry.SchemaVersion != PoolSchemaVersion {
		return nil, fmt.Errorf("unsupported schema version %s of %s", entry.SchemaVersion, id)
	}
	return entry, nil
}

// Private method to re-put the entry into the DB
''')],'a pool entry stored by an earlier version','it can neither be indexed nor removed any more',CH+'''
type demoItem struct {
	SchemaVersion string
	Name          string
	RefCount      uint64
	Meta          *struct {
		Name    string
		History []struct {
			Release int
			Date    string
		}
		PackageURI, PackageHash string
		PackageSize             int64
		Source                  struct{ Name string }
	}
}

func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, filepath.Join(d, "base"))
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoAssets(t, filepath.Join(d, "base"), "r")
	demoMust(t, m.AddPackages("r", []string{demoPkg(t, d, "nano", "nano", 5)}, false))
	b := m.db.Bucket([]byte("pool"))
	e := demoItem{}
	id := "nano-1.0-5-1-x86_64.eopkg"
	demoMust(t, b.GetObject([]byte(id), &e))
	e.SchemaVersion = "1.0"
	demoMust(t, b.PutObject([]byte(id), &e))
	demoMust(t, m.RemoveSource("r", "nano", 5))
}
''',pkg=C)
bug('c44-delta-release','C44',[(P,'	FromRelease int    // The','	OldRelease  int    // The'),(P,'mapping.FromRelease =','mapping.OldRelease ='),(P,'''			FromRelease: delta.FromRelease,''','''			OldRelease:  delta.OldRelease,'''),('src/ferryd/core/repo_index.go','poolEnt.Delta.FromRelease','poolEnt.Delta.OldRelease'),(J+'delta.go','			FromRelease: old','			OldRelease:  old')],
'a delta stored by an earlier version','it is indexed as leading from release 0',CH+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, filepath.Join(d, "base"))
	defer m.Close()
	b := m.db.Bucket([]byte("pool"))
	demoMust(t, b.PutObject([]byte("d.delta.eopkg"), &struct {
		SchemaVersion, Name string
		RefCount            uint64
		Delta               *demoStoredDelta
	}{"1.0", "d.delta.eopkg", 1, &demoStoredDelta{3, "a", 4, "b"}}))
	e := struct{ Delta *demoStoredDelta }{}
	items, err := m.GetPoolItems()
	demoMust(t, err)
	if len(items) != 1 {
		t.Fatal(len(items))
	}
	// as the present code writes it again
	demoMust(t, m.db.Bucket([]byte("x")).PutObject([]byte("y"), items[0]))
	demoMust(t, m.db.Bucket([]byte("x")).GetObject([]byte("y"), &e))
	if e.Delta == nil || e.Delta.FromRelease != 3 || e.Delta.ToRelease != 4 {
		t.Fatalf("%+v", e.Delta)
	}
}
''',pkg=C)
JB='''package jobs
import (
	"testing"
	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/libferry"
	"path/filepath"
)
type demoJob struct {
	Type    string
	Claimed bool
	Params  []string
	Timing  libferry.TimingInformation
}
var _ = libdb.Open
var _ = filepath.Join
'''
bug('c44-claim-owner','C44',[(J+'main.go','''	Claimed    bool
''','''	Claimed    bool
	Owner      int // Process that claimed the job
'''),(J+'store.go','''			if !j.Claimed {
				return nil
			}
''','''			// Nothing to take back from anyone
			if j.Owner == 0 {
				return nil
			}
			j.Owner = 0
'''),(J+'store.go','''				j.Claimed = true

''','''				j.Claimed = true
				j.Owner = os.Getpid()

'''),(J+'store.go','''	"errors"
''','''	"errors"
	"os"
''')],'a job that was claimed when an earlier version ended','it is never run, and never leaves the queue',JB+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	db, err := libdb.Open(filepath.Join(d, "ferry_db_jobs"))
	if err != nil {
		t.Fatal(err)
	}
	if err := db.Bucket([]byte("Sync")).PutObject(make([]byte, 8), &demoJob{Type: "IndexRepo", Claimed: true, Params: []string{"x"}}); err != nil {
		t.Fatal(err)
	}
	db.Close()
	st, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	defer st.Close()
	if j, err := st.ClaimSequentialJob(); err != nil || len(j.Params) != 1 || j.Params[0] != "x" {
		t.Fatal(j, err)
	}
}
''',pkg='src/ferryd/jobs')
bug('c44-pull-order','C44',[(J+'pull_repo.go','[]string{sourceID, targetID}','[]string{targetID, sourceID}'),(J+'pull_repo.go','sourceID: j.Params[0],','sourceID: j.Params[1],'),(J+'pull_repo.go','targetID: j.Params[1],','targetID: j.Params[0],')],
'a pull that an earlier version queued','it pulls the wrong way round',JB+'''
func TestDemo(t *testing.T) {
	h, err := NewJobHandler(&JobEntry{Type: "PullRepo", Params: []string{"from", "to"}})
	if err != nil {
		t.Fatal(err)
	}
	now, err := NewJobHandler(NewPullRepoJob("from", "to"))
	if err != nil || h.Describe() != now.Describe() {
		t.Fatal(h.Describe(), err)
	}
}
''',pkg='src/ferryd/jobs')
bug('c44-json-release','C44',[('src/libferry/types.go','''	Source  string `json:"source"`
	Release int    `json:"relno"`''','''	Source  string `json:"source"`
	Release int    `json:"release"`''')],'a client and a daemon of different versions, one asking the other to remove a source','the daemon takes release 0','''package libferry
import (
	"encoding/json"
	"net"
	"net/http"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	sock := filepath.Join(t.TempDir(), "s")
	l, err := net.Listen("unix", sock)
	if err != nil {
		t.Fatal(err)
	}
	body := map[string]interface{}{}
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { json.NewDecoder(r.Body).Decode(&body) }))
	defer l.Close()
	c := NewClient(sock)
	defer c.Close()
	if err := c.RemoveSource("r", "nano", 7); err != nil {
		t.Fatal(err)
	}
	if body["relno"] != float64(7) || body["source"] != "nano" {
		t.Fatal(body)
	}
}
''',pkg='src/libferry')

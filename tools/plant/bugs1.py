R='src/ferryd/core/repo.go'
BUGS={}
BUGS['c03-unref-lexical']=dict(property='C03',needs='the published build is removed while builds with releases of different digit counts (9 and 10) remain',breaks='after removing the published build, the last of the ids in string order is published instead of the highest release',
 edits=[(R,'''		curRel := availEntry.Meta.GetRelease()
		if curRel > newHighest {
			newHighest = curRel
			newHighestID = id
		}
''','''		if curRel := availEntry.Meta.GetRelease(); entry.Published == pkgID || curRel > newHighest {
			newHighest = curRel
			newHighestID = id
		}
''')],
 demo='''package core
import "testing"
func TestDemoPublished(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoAssets(t, d+"/b", "r")
	var ps []string
	for _, n := range []int{9, 10, 11} {
		ps = append(ps, demoPkg(t, d, "foo", "foo", n))
	}
	demoMust(t, m.AddPackages("r", ps, false))
	demoMust(t, m.RemoveSource("r", "foo", 11))
	if e := demoEntry(t, m, "r", "foo"); e.Published != "foo-1.0-10-1-x86_64.eopkg" {
		t.Fatalf("published: %s of %v", e.Published, e.Available)
	}
}
''')
BUGS['c10-pull-first-available']=dict(property='C10',needs='the target holds several builds of a name, the published one of which equals or exceeds what the source publishes',breaks='the pull compares with the first build of the target instead of the published one, so unchanged names are reported as changed and older builds pulled in',
 edits=[(R,'''		ourTip, err := pool.GetEntry(db, localEntry.Published)
''','''		ourTip, err := pool.GetEntry(db, localEntry.Available[0])
''')],
 demo='''package core
import "testing"
func TestDemoPull(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("src"))
	demoMust(t, m.CreateRepo("dst"))
	a, b := demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)
	demoMust(t, m.AddPackages("src", []string{b}, false))
	demoMust(t, m.AddPackages("dst", []string{a, b}, false))
	ch, err := m.PullRepo("src", "dst")
	demoMust(t, err)
	if len(ch) != 0 {
		t.Fatalf("changed: %v", ch)
	}
}
''')
BUGS['c15-delete-keeps-cache']=dict(property='C15',needs='a repository is deleted and its name created again in the same process',breaks='the cache of open repositories keeps the deleted one, so the name cannot be used afresh and operations on it do not fail',
 edits=[(R,'''	delete(r.repos, id)

''','''''')],
 demo='''package core
import "testing"
func TestDemoRecreate(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoMust(t, m.DeleteRepo("r"))
	demoMust(t, m.CreateRepo("r"))
}
''')
BUGS['c01-delete-keeps-failed-delta-ref']=dict(property='C01',needs='a repository holding two builds of a name in the wrong order of ids is trimmed while another repository shares them',breaks='trimming removes the file of the pool while another repository still holds it',
 edits=[('src/ferryd/core/pool.go','''	entry.RefCount--
	if entry.RefCount > 0 {
''','''	entry.RefCount--
	if entry.RefCount > 1 || (entry.RefCount > 0 && entry.Delta == nil) {
''')],
 demo='''package core
import ("testing";"strings")
func TestDemoDeltaRefs(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	p, q := demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)
	demoMust(t, m.AddPackages("a", []string{p, q}, false))
	// any package of the same name does for a delta
	dl := demoPkg(t, d, "foo", "foo", 3)
	demoMust(t, m.AddDelta("a", dl, &DeltaInformation{FromID: "foo-1.0-1-1-x86_64.eopkg", ToID: "foo-1.0-2-1-x86_64.eopkg"}))
	demoMust(t, m.CloneRepo("a", "b", true))
	demoMust(t, m.DeleteRepo("b"))
	if s := demoPool(t, m); !strings.Contains(s, "foo-1.0-3-1-x86_64.eopkg=1") {
		t.Fatal(s)
	}
}
''')
BUGS['c01-delete-keeps-failed-delta-ref'].update(needs='a delta held by exactly two repositories is dropped from one of them',breaks='the pool entry and file of the delta vanish while one repository still holds it')
BUGS['c01-delta-last-but-one']=BUGS.pop('c01-delete-keeps-failed-delta-ref')
BUGS['c20-from-build-removed']=dict(property='C20',needs='the older of the two builds of a delta is removed after a newer release has been published (trim), with the delta leading to a build that stays',breaks='a delta from a removed build stays listed and published',
 edits=[(R,'''		if pkgDelta.Delta.FromID == pkgID || pkgDelta.Delta.ToID == pkgID {
''','''		if pkgDelta.Delta.ToID == pkgID || (pkgDelta.Delta.FromID == pkgID && pkgDelta.Delta.ToID != entry.Published) {
''')],
 demo='''package core
import "testing"
func TestDemoDeltaGone(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d+"/b", "a")
	p, q := demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)
	demoMust(t, m.AddPackages("a", []string{p, q}, false))
	dl := demoPkg(t, d, "foo", "foo", 3)
	demoMust(t, m.AddDelta("a", dl, &DeltaInformation{FromID: "foo-1.0-1-1-x86_64.eopkg", ToID: "foo-1.0-2-1-x86_64.eopkg"}))
	demoMust(t, m.TrimPackages("a", 1))
	if e := demoEntry(t, m, "a", "foo"); len(e.Deltas) != 0 {
		t.Fatalf("deltas: %v", e.Deltas)
	}
}
''')
BUGS['c21-sequence-little-endian']=dict(property='C21',pkg='src/ferryd/jobs',needs='more than 256 jobs wait in one queue',breaks='sequence numbers no longer sort in the order of queueing, so jobs are overwritten and lost',
 edits=[('src/libdb/leveldb.go','binary.BigEndian','binary.LittleEndian',0),('src/libdb/leveldb.go','binary.BigEndian','binary.LittleEndian',0)],
 demo='''package jobs
import ("testing";"fmt")
func TestDemoMany(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil { t.Fatal(err) }
	defer s.Close()
	for i := 0; i < 300; i++ {
		if err := s.PushSequentialJob(NewIndexRepoJob(fmt.Sprint(i))); err != nil { t.Fatal(err) }
	}
	for i := 0; i < 300; i++ {
		j, err := s.ClaimSequentialJob()
		if err != nil { t.Fatal(i, err) }
		if j.Params[0] != fmt.Sprint(i) { t.Fatal(i, j.Params) }
		if err := s.RetireSequentialJob(j); err != nil { t.Fatal(err) }
	}
}
''')
BUGS['c22-ring-off-by-one']=dict(property='C22',pkg='src/ferryd/jobs',needs='more than a hundred results of one kind',breaks='the ring keeps a hundred and one results',
 edits=[('src/ferryd/jobs/store.go','if record.Index >= MaxJobsStored {','if record.Index > MaxJobsStored {')],
 demo='''package jobs
import ("testing";"fmt")
func TestDemoRing(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil { t.Fatal(err) }
	defer s.Close()
	for i := 0; i < 130; i++ {
		if err := s.PushSequentialJob(NewIndexRepoJob(fmt.Sprint(i))); err != nil { t.Fatal(err) }
		j, err := s.ClaimSequentialJob()
		if err != nil { t.Fatal(i, err) }
		if err := s.RetireSequentialJob(j); err != nil { t.Fatal(err) }
	}
	js, err := s.CompletedJobs()
	if err != nil || len(js) != 100 { t.Fatal(len(js), err) }
}
''')
BUGS['c26-nested-bucket-writes-through']=dict(property='C26',pkg='src/libdb',needs='a group of changes that uses a nested bucket fails after its first change',breaks='changes made through a bucket of a group are stored at once instead of with the group',
 edits=[('src/libdb/leveldb.go','''		batch:       l.batch,
		seqLock:     l.seqLock,
	}
	return ret
''','''		seqLock:     l.seqLock,
	}
	if len(id) > 0 && bytes.HasPrefix(l.prefix, rootBucketPrefix[:len(rootBucketPrefix)-1]) {
		ret.batch = l.batch
	}
	return ret
''')],
 demo='''package libdb
import ("testing";"errors")
func TestDemoGroup(t *testing.T) {
	db, err := Open(t.TempDir())
	if err != nil { t.Fatal(err) }
	defer db.Close()
	db.Update(func(d Database) error {
		d.Bucket([]byte("a")).Bucket([]byte("b")).PutObject([]byte("k"), "v")
		return errors.New("no")
	})
	if ok, _ := db.Bucket([]byte("a")).Bucket([]byte("b")).HasObject([]byte("k")); ok { t.Fatal("stored") }
}
''')

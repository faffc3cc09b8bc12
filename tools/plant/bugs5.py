_n={}; exec(open('/tmp/plant/bugs3.py').read(),_n)
bug=_n['bug']; _n['BUGS'].clear(); BUGS=_n['BUGS']; FH=_n['FH']; JH=_n['JH']; DBH=_n['DBH']; DHEAD=_n['DHEAD']; DPKG=_n['DPKG']
_w={}; exec(open('/tmp/m/w2.py').read(),_w); M=_w['M']
def w(i,needs,breaks,demo,**k):
    p,e=M[i]; bug(i,p.split()[0],e,needs,breaks,demo,**k)
w('c04-dist-mtime','the assets of a repository are replaced by other ones of the same length while the daemon runs','the index keeps the old distribution information','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d+"/b", "a", "xx")
	demoMust(t, m.Index("a"))
	demoAssets(t, d+"/b", "a", "yy")
	demoMust(t, m.Index("a"))
	b, _ := os.ReadFile(d + "/b/repo/a/eopkg-index.xml")
	if !strings.Contains(string(b), "<Package>yy</Package>") {
		t.Fatal(string(b))
	}
}
''')
w('c05-unchanged-left','an index is regenerated without a change after its compressed copy was lost or damaged','the compressed copy and its checksums stay as they are','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	x := d + "/b/repo/a/eopkg-index.xml.xz"
	demoMust(t, os.Remove(x))
	demoMust(t, m.Index("a"))
	if !PathExists(x) {
		t.Fatal("no compressed index")
	}
}
''')
w('c09-onto-empty','the name of the clone is that of a repository that is empty','it is cloned onto, instead of refused','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1)}, false))
	if m.CloneRepo("a", "b", true) == nil {
		t.Fatal("cloned onto")
	}
}
''')
w('c10-same-release','both repositories publish another build of the same release','a pull brings in a build that is not newer','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	p := demoPkg(t, d, "foo", "foo", 1)
	q := filepath.Join(d, "foo-1.0-1-1-x86_64-b.eopkg")
	b, _ := os.ReadFile(p)
	b2 := strings.ReplaceAll(string(b), "1.0", "1.1")
	_ = b2
	demoMust(t, m.AddPackages("b", []string{p}, false))
	// the same release of another version
	demoMust(t, os.Mkdir(d+"/x", 0755))
	r := demoPkgVer(t, d+"/x", "foo", 1, "1.1")
	_ = q
	demoMust(t, m.AddPackages("a", []string{r}, false))
	changed, err := m.PullRepo("a", "b")
	if err != nil || len(changed) != 0 {
		t.Fatal(changed, err)
	}
}
''')
w('c10-held-already','the target has the other repository\'s published build, and a newer one that it does not','the pull is not refused','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	p, q := demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)
	demoMust(t, m.AddPackages("a", []string{p}, false))
	demoMust(t, m.AddPackages("b", []string{p, q}, false))
	if _, err := m.PullRepo("a", "b"); err == nil {
		t.Fatal("not refused")
	}
}
''')
w('c13-version-once','a trimmed name has five builds, two of consecutive releases with the published version','a build that is to go stays','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	var ps []string
	for i := 1; i < 7; i++ {
		ps = append(ps, demoPkg(t, d, "foo", "foo", i))
	}
	demoMust(t, m.AddPackages("a", ps, false))
	demoMust(t, m.TrimPackages("a", 2))
	if e := demoEntry(t, m, "a", "foo"); len(e.Available) != 2 {
		t.Fatal(e.Available)
	}
}
''')
w('c14-debug-alone','a debug package is left of an obsolete package that is gone already','it is not trimmed','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo-dbginfo", 1), demoPkg(t, d, "foo", "bar", 1)}, false))
	demoAssets(t, d+"/b", "a", "foo")
	demoMust(t, m.TrimObsolete("a"))
	if e := demoEntry(t, m, "a", "foo-dbginfo"); e != nil {
		t.Fatal(e)
	}
}
''')
w('c15-staging-left','a repository for which a delta is staged is deleted and made again','the deleted repository leaves its staged deltas behind','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, os.WriteFile(d+"/b/deltaStaging/a/x.delta.eopkg", nil, 0644))
	demoMust(t, m.DeleteRepo("a"))
	if PathExists(d + "/b/deltaStaging/a/x.delta.eopkg") {
		t.Fatal("left")
	}
}
''')
w('c16-delete-glob','a repository is deleted whose name is the beginning of the name of another, which has staged deltas','the other one loses its directory of staged deltas','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("a-b"))
	demoMust(t, os.WriteFile(d+"/b/deltaStaging/a-b/x.delta.eopkg", nil, 0644))
	demoMust(t, m.DeleteRepo("a"))
	if !PathExists(d + "/b/deltaStaging/a-b/x.delta.eopkg") {
		t.Fatal("gone")
	}
}
''')
w('c17-one-transaction','one import names several packages of the same name, or the same twice','some of them are lost','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)}, false))
	if e := demoEntry(t, m, "a", "foo"); len(e.Available) != 2 {
		t.Fatal(e.Available)
	}
}
''')
w('c19-comar-install','a build has a script whose name begins with "install"','the delta does not carry it',DHEAD.replace('	w, _ = zw.Create("install.tar.xz")','	w, _ = zw.Create("comar/install.py")\n	w.Write([]byte("x"))\n	w, _ = zw.Create("install.tar.xz")')+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	o := dpkg(t, d+"/foo-1.0-1-1-x86_64.eopkg", 1, map[string]string{"a": "1", "b": "2"})
	n := dpkg(t, d+"/foo-1.0-2-1-x86_64.eopkg", 2, map[string]string{"a": "1", "b": "3"})
	p, err := NewDeltaProducer(d, o, n)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	out, err := p.Commit()
	if err != nil {
		t.Fatal(err)
	}
	zr, err := zip.OpenReader(out)
	if err != nil {
		t.Fatal(err)
	}
	defer zr.Close()
	for _, f := range zr.File {
		if f.Name == "comar/install.py" {
			return
		}
	}
	t.Fatal("no script")
}
''',pkg='src/libeopkg')
w('c20-by-release','a name has two builds of one release, of which one is removed','a delta that leads from the other one is dropped too','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	p1, p2, p3 := demoPkgVer(t, d, "foo", 1, "1.0"), demoPkgVer(t, d, "foo", 1, "1.1"), demoPkgVer(t, d, "foo", 2, "2.0")
	demoMust(t, m.AddPackages("a", []string{p1, p2, p3}, false))
	dl := demoPkg(t, d, "foo", "foo", 9)
	demoMust(t, m.AddDelta("a", dl, &DeltaInformation{FromID: filepath.Base(p1), ToID: filepath.Base(p3), FromRelease: 1, ToRelease: 2}))
	r, _ := m.GetRepo("a")
	demoMust(t, r.UnrefPackage(m.db, m.pool, filepath.Base(p2)))
	if e := demoEntry(t, m, "a", "foo"); len(e.Deltas) != 1 {
		t.Fatal(e)
	}
}
''')
w('c20-known-in-pool','a delta that two repositories have is offered to a third one','it is listed there without being counted','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	p1, p2, dl := demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2), demoPkg(t, d, "foo", "foo", 9)
	for _, r := range []string{"a", "b", "c"} {
		demoMust(t, m.CreateRepo(r))
		demoMust(t, m.AddPackages(r, []string{p1, p2}, false))
		demoMust(t, m.AddDelta(r, dl, &DeltaInformation{FromID: filepath.Base(p1), ToID: filepath.Base(p2)}))
	}
	if s := demoPool(t, m); !strings.Contains(s, "foo-1.0-9-1-x86_64.eopkg=3") {
		t.Fatal(s)
	}
}
''')
w('c18-manifest-kept','an upload of nine packages or more is accepted','its manifest is left behind',None,pkg='src/ferryd/jobs') if False else None
w('c18-validate-lazy','an upload of three packages or more of which one is damaged','the first one is imported all the same',None,pkg='x') if False else None
w('c21-unclaim-first','the daemon ends with several jobs claimed','only the first of them is run after the restart',JH+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	s, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		s.PushAsyncJob(NewDeltaJob("a", fmt.Sprint(i)))
		s.ClaimAsyncJob()
	}
	s.Close()
	if s, err = NewStore(d); err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < 3; i++ {
		if _, err := s.ClaimAsyncJob(); err != nil {
			t.Fatal(i, err)
		}
	}
}
''',pkg='src/ferryd/jobs')
w('c22-pointer-in-memory','the daemon is restarted when more than ninety results are remembered and fewer than the hundred','the next result replaces the first one',JH+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	var s *JobStore
	var err error
	one := func() {
		s.PushSequentialJob(NewIndexRepoJob("a"))
		j, err := s.ClaimSequentialJob()
		if err != nil {
			t.Fatal(err)
		}
		if err := s.RetireSequentialJob(j); err != nil {
			t.Fatal(err)
		}
	}
	if s, err = NewStore(d); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 96; i++ {
		one()
	}
	s.Close()
	if s, err = NewStore(d); err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	one()
	if js, err := s.CompletedJobs(); err != nil || len(js) != 97 {
		t.Fatal(len(js), err)
	}
}
''',pkg='src/ferryd/jobs')
w('c23-claim-read-lock','two workers look for a job at the same time','both run the same one',JH+'''
func TestDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	for i := 0; i < 400; i++ {
		s.PushAsyncJob(NewDeltaJob("a", fmt.Sprint(i)))
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[string]int{}
	for g := 0; g < 16; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				j, err := s.ClaimAsyncJob()
				if err != nil {
					return
				}
				mu.Lock()
				seen[string(j.id)]++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, n := range seen {
		if n > 1 {
			t.Fatal("claimed twice")
		}
	}
}
''',pkg='src/ferryd/jobs')
w('c25-has-by-seek','a key is looked for that is the beginning of another one','it is said to be there',DBH+'''
func TestDemo(t *testing.T) {
	db, err := Open(t.TempDir() + "/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	b := db.Bucket([]byte("x"))
	b.PutObject([]byte("abc"), 1)
	if ok, err := b.HasObject([]byte("ab")); ok || err != nil {
		t.Fatal(ok, err)
	}
}
''',pkg='src/libdb')
w('c26-delete-at-once','a group of changes deletes something and then fails','the deletion stays',DBH+'''
func TestDemo(t *testing.T) {
	db, err := Open(t.TempDir() + "/db")
	if err != nil {
		t.Fatal(err)
	}
	defer db.Close()
	db.PutObject([]byte("a"), 1)
	db.Update(func(tx Database) error {
		tx.DeleteObject([]byte("a"))
		return errors.New("no")
	})
	if ok, _ := db.HasObject([]byte("a")); !ok {
		t.Fatal("gone")
	}
}
''',pkg='src/libdb')
w('c27-recount','the manager is opened again when two repositories share a delta','the delta is counted once, and goes with the first of them','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	p1, p2, dl := demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2), demoPkg(t, d, "foo", "foo", 9)
	for _, r := range []string{"a", "b"} {
		demoMust(t, m.CreateRepo(r))
		demoMust(t, m.AddPackages(r, []string{p1, p2}, false))
		demoMust(t, m.AddDelta(r, dl, &DeltaInformation{FromID: filepath.Base(p1), ToID: filepath.Base(p2)}))
	}
	before := demoPool(t, m)
	m.Close()
	m = demoManager(t, d+"/b")
	defer m.Close()
	if s := demoPool(t, m); s != before {
		t.Fatal(before, s)
	}
}
''')
w('c29-link-logged','the file of a package cannot be linked into the repository that takes it from the pool','the package is listed without its file, and nothing is reported','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1)}, false))
	p := d + "/b/repo/b/f/foo/foo-1.0-1-1-x86_64.eopkg"
	demoMust(t, os.MkdirAll(p, 0755))
	if m.CopySource("a", "b", "foo", -1, true) == nil {
		t.Fatal("no error")
	}
}
''')
w('c30-empty-components','the assets list no component at all','the indexing panics','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, os.WriteFile(d+"/b/assets/a/components.xml", []byte("<PISI><Components></Components></PISI>"), 0644))
	demoMust(t, m.Index("a"))
}
''')
w('c32-unescaped-twice','the name of a repository contains a percent sign','the job names another repository',FH.replace('	"os"\n','	"net/http/httptest"\n	"os"\n	"strings"\n')+'''
func TestDemo(t *testing.T) {
	s, _ := demoServer(t)
	w := httptest.NewRecorder()
	s.router.ServeHTTP(w, httptest.NewRequest("POST", "/api/v1/clone/a%2542", strings.NewReader(`{"cloneName":"x"}`)))
	a, err := s.store.ActiveJobs()
	if err != nil || len(a) != 1 || !strings.Contains(a[0].Description, "a%42") {
		t.Fatal(a[0].Description, err)
	}
}
''',pkg='src/ferryd')
w('c33-same-description','two equal jobs are queued within a second','the status lists only one of them',JH+'''
func TestDemo(t *testing.T) {
	s, err := NewStore(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	s.PushSequentialJob(NewIndexRepoJob("a"))
	s.PushSequentialJob(NewIndexRepoJob("a"))
	if js, err := s.ActiveJobs(); err != nil || len(js) != 2 {
		t.Fatal(len(js), err)
	}
}
''',pkg='src/ferryd/jobs')
w('c38-requeue','the daemon dies while a job runs and others are queued behind it','the interrupted job runs last',JH+'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	s, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	s.PushSequentialJob(NewIndexRepoJob("a"))
	s.PushSequentialJob(NewIndexRepoJob("b"))
	s.ClaimSequentialJob()
	s.Close()
	if s, err = NewStore(d); err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	j, err := s.ClaimSequentialJob()
	if err != nil || j.Params[0] != "a" {
		t.Fatal(j, err)
	}
}
''',pkg='src/ferryd/jobs')
w('c37-debounce','a manifest is removed and uploaded again, or finished, within a fifth of a second','the second upload is not noticed',FH+'''
func TestDemo(t *testing.T) {
	s, d := demoServer(t)
	if err := s.InitWatcher(); err != nil {
		t.Fatal(err)
	}
	s.WatchIncoming()
	for i := 0; i < 2; i++ {
		os.WriteFile(d+"/incoming/a.tram", []byte("x"), 0644)
		time.Sleep(60 * time.Millisecond)
		os.Remove(d + "/incoming/a.tram")
	}
	time.Sleep(500 * time.Millisecond)
	if a, err := s.store.ActiveJobs(); err != nil || len(a) != 2 {
		t.Fatal(len(a), err)
	}
}
''',pkg='src/ferryd')

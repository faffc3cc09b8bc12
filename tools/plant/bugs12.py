BUGS={}
C='src/ferryd/core/'; R=C+'repo.go'; U=C+'util.go'
CB='package core\nimport (\n"testing"\n"os"\n"strings"\n"path/filepath"\n)\nvar _ = strings.Join\nvar _ = os.Getenv\nvar _ = filepath.Join\n'
def bug(i,edits,needs,breaks,demo,**k):
    BUGS[i]=dict(property='C46',edits=edits,needs=needs,breaks=breaks,pkg='src/ferryd/core',demo=CB+'''
func demoGone(t *testing.T, p string) {
	t.Helper()
	if ents, err := os.ReadDir(p); err == nil && len(ents) > 0 {
		t.Fatal(p, ents)
	}
}
func demoNone(t *testing.T, p string) {
	t.Helper()
	if _, err := os.Lstat(p); err == nil {
		t.Fatal(p)
	}
}
func TestDemo(t *testing.T) {
	d := t.TempDir()
	b := d + "/b"
	m := demoManager(t, b)
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, b, "a", "nano")
'''+demo+'}\n',**k)
P='[]string{demoPkg(t, d, "nano", "nano", 1), demoPkg(t, d, "nano", "nano", 2)}'
bug('c46-parents-when-shared',[(R,'''	// This is a "we tried but oh noes, not fatal.
	if err = RemovePackageParents(pkgTarget); err != nil {
''','''	// Others still have it, so the structure is in use
	if poolEntry.RefCount > 1 {
		return pool.UnrefEntry(db, id)
	}

	// This is a "we tried but oh noes, not fatal.
	if err = RemovePackageParents(pkgTarget); err != nil {
''')],'the package that goes is also held by another repository','the empty directories of the package stay in the repository','''
	demoMust(t, m.AddPackages("a", '''+P+''', false))
	demoMust(t, m.CloneRepo("a", "b", true))
	demoMust(t, m.TrimObsolete("a"))
	demoGone(t, b+"/repo/a/n")
	demoNone(t, b+"/repo/a/n")
''')
bug('c46-guarded-letter',[(U,'''	for _, p := range removalPaths {
		contents, err := ioutil.ReadDir(p)
''','''	// Don't climb out of the packages into something else
	if !strings.HasPrefix(filepath.Base(path), filepath.Base(letterDir)) {
		removalPaths = removalPaths[:1]
	}

	for _, p := range removalPaths {
		contents, err := ioutil.ReadDir(p)
'''),(U,'''	"path/filepath"
''','''	"path/filepath"
	"strings"
''')],'the package has another first letter than its source, or one in upper case','the letter directory stays behind','''
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "zed", "nano", 1)}, false))
	demoMust(t, m.TrimObsolete("a"))
	demoNone(t, b+"/repo/a/z")
	demoNone(t, b+"/pool/z")
''')
bug('c46-work-dir-with-delta',[(U,'''	// Always nuke the tmpfile
	defer os.Remove(path)
''','''	// Always nuke the tmpfile, and what was around it
	defer os.RemoveAll(filepath.Dir(path))
'''),('src/libeopkg/delta.go','''	// Ensure we always nuke the work directory we used
	if d.baseDir != "" {
		return os.RemoveAll(d.baseDir)
	}
	return nil
''','''	return nil
'''),(U,'''	"path/filepath"
''','''	"path/filepath"
''')],'two builds have the same files, so that no delta is worth making','the work directory of the attempt stays','''
	demoMust(t, m.AddPackages("a", '''+P+''', false))
	all, err := m.GetPackages("a", "nano")
	demoMust(t, err)
	m.CreateDelta("a", all[0], all[1])
	demoGone(t, b+"/deltaBuilds/a")
''')
BUGS['c46-work-dir-with-delta']['edits'].pop()
bug('c46-unchanged-index',[(C+'repo_index.go','''	for k, v := range mapping {
		if errAbort = os.Rename(k, v); errAbort != nil {
			return errAbort
		}
	}

	errAbort = purge''','''	for k, v := range mapping {
		// Clients shall not fetch again what they have
		a, aerr := FileSha256sum(k)
		if b, berr := FileSha256sum(v); aerr == nil && berr == nil && a == b {
			continue
		}
		if errAbort = os.Rename(k, v); errAbort != nil {
			return errAbort
		}
	}

	errAbort = purge''')],'a repository is indexed twice without a change','the new files stay beside the old ones','''
	demoMust(t, m.Index("a"))
	demoMust(t, m.Index("a"))
	demoNone(t, b+"/repo/a/eopkg-index.xml.new")
	demoNone(t, b+"/repo/a/eopkg-index.xml.new.xz")
''')
bug('c46-assets-of-removed',[(R,'''	for _, p := range deletionPaths {
		if !PathExists(p) {
			continue
		}
''','''	for i, p := range deletionPaths {
		if !PathExists(p) {
			continue
		}
		// The work areas have nothing in them anymore, usually
		if i > 1 {
			os.Remove(p)
			continue
		}
''')],'a repository is removed while a delta that was made for it is not included yet','the staged delta stays on disk','''
	demoMust(t, os.MkdirAll(b+"/deltaStaging/a", 0755))
	demoMust(t, os.WriteFile(b+"/deltaStaging/a/nano-1-2-1-x86_64.delta.eopkg", nil, 0644))
	demoMust(t, m.DeleteRepo("a"))
	demoNone(t, b+"/deltaStaging/a")
''')
bug('c46-dirs-before-known',[(R,"""	// Now make sure we actually have the local entry
	entry, err := r.GetEntry(db, poolEntry.Meta.Name)
	if err != nil {
		return err
	}

	// Extract our relevant paths
	localPath := pool.GetMetaPoolPath(deltaID, poolEntry.Meta)
	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
	targetPath := filepath.Join(targetDir, deltaID)
""","""	// Extract our relevant paths
	localPath := pool.GetMetaPoolPath(deltaID, poolEntry.Meta)
	targetDir := filepath.Join(r.path, poolEntry.Meta.GetPathComponent())
	targetPath := filepath.Join(targetDir, deltaID)

	// Construct root dirs
	if err = os.MkdirAll(targetDir, 00755); err != nil {
		return err
	}

	// Now make sure we actually have the local entry
	entry, err := r.GetEntry(db, poolEntry.Meta.Name)
	if err != nil {
		return err
	}
"""),(R,"""	// Construct root dirs
	if err := os.MkdirAll(targetDir, 00755); err != nil {
		return err
	}

	// Grab the pool reference for this package
	if err := pool.RefEntry(db, deltaID); err != nil {
""","""	// Grab the pool reference for this package
	if err := pool.RefEntry(db, deltaID); err != nil {
""")],'a delta is to be reused in a repository that does not have the package (which is refused)','the empty directories of the package stay','''
	demoMust(t, m.CreateRepo("c"))
	demoMust(t, m.AddPackages("a", '''+P+''', false))
	r, err := m.GetRepo("c")
	demoMust(t, err)
	if r.RefDelta(m.db, m.pool, "nano-1.0-1-1-x86_64.eopkg") == nil {
		t.Fatal("taken")
	}
	demoNone(t, b+"/repo/c/n")
''')

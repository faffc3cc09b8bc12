R='src/ferryd/core/repo.go'
X='src/ferryd/core/repo_index.go'
P='src/ferryd/core/pool.go'
L='src/libeopkg/'
J='src/ferryd/jobs/'
BUGS={}
HEAD='''package core
import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)
var _ = os.Remove
var _ = filepath.Join
var _ = strings.Contains
'''
def bug(i,p,edits,needs,breaks,demo,**k):
    BUGS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,demo=HEAD+demo if 'pkg' not in k else demo,**k)

bug('c02-parents-with-sibling','C02',[('src/ferryd/core/util.go','		if len(contents) != 0 {\n			continue\n		}\n		if err = os.Remove(p); err != nil {','		if len(contents) > 1 {\n			continue\n		}\n		if err = os.RemoveAll(p); err != nil {')],
 'a file is removed from the directory of a source in which exactly one other file stays',
 'the directory is deleted together with the remaining file, which is still listed',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoMust(t, m.AddPackages("r", []string{demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)}, false))
	demoMust(t, m.RemoveSource("r", "foo", 1))
	if !PathExists(d + "/b/repo/r/f/foo/foo-1.0-2-1-x86_64.eopkg") {
		t.Fatal("gone")
	}
}
''')
bug('c03-compare-with-last-listed','C03',[(R,'		pkgAvail, err := pool.GetEntry(db, repoEntry.Published)','		pkgAvail, err := pool.GetEntry(db, entry.Available[len(entry.Available)-1])')],
 'a build is added to a name that already has builds whose releases have different numbers of digits, and its release lies between theirs',
 'the new build is compared with the last id in string order instead of the published one and gets published over a higher release',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	for _, n := range []int{9, 11, 10} {
		demoMust(t, m.AddPackages("r", []string{demoPkg(t, d, "foo", "foo", n)}, false))
	}
	if e := demoEntry(t, m, "r", "foo"); e.Published != "foo-1.0-11-1-x86_64.eopkg" {
		t.Fatal(e.Published)
	}
}
''')
bug('c04-groups-need-components','C04',[(X,'	comp, err := libeopkg.NewComponents(dpath)\n','	if !PathExists(filepath.Join(r.assetPath, "groups.xml")) {\n		return nil\n	}\n	comp, err := libeopkg.NewComponents(dpath)\n')],
 'a repository has components configured but no groups','the configured components are missing in its index',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoMust(t, os.WriteFile(d+"/b/assets/r/components.xml", []byte("<PISI><Components><Component><Name>system.base</Name><LocalName xml:lang=\\"en\\">b</LocalName><Summary>b</Summary><Description>b</Description><Group>system</Group><Maintainer><Name>a</Name><Email>b</Email></Maintainer></Component></Components></PISI>"), 0644))
	demoMust(t, m.Index("r"))
	b, err := os.ReadFile(d + "/b/repo/r/eopkg-index.xml")
	demoMust(t, err)
	if !strings.Contains(string(b), "system.base") {
		t.Fatal(string(b))
	}
}
''')
bug('c04-dbginfo-anywhere','C04',[(X,'''	if strings.HasSuffix(nom, "-dbginfo") {
		nom = nom[0 : len(nom)-8]
	}
''','''	nom = strings.Replace(nom, "-dbginfo", "", 1)
''')],
 'a package has "-dbginfo" in the middle of its name and the name without it is obsolete','the package is missing in the index',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoAssets(t, d+"/b", "r", "foo-tools")
	demoMust(t, m.AddPackages("r", []string{demoPkg(t, d, "foo", "foo-dbginfo-tools", 1)}, false))
	b, err := os.ReadFile(d + "/b/repo/r/eopkg-index.xml")
	demoMust(t, err)
	if !strings.Contains(string(b), "foo-dbginfo-tools") {
		t.Fatal(string(b))
	}
}
''')
bug('c04-obsolete-published-twin','C04',[(X,'''		// Basically the ToRelease must be for this release
		if poolEnt.Delta.ToRelease != entry.Meta.GetRelease() {
			continue
		}
''','''		// Basically it must be a delta for this release
		if !strings.Contains(id, fmt.Sprintf("-%d-", entry.Meta.GetRelease())) {
			continue
		}
''')],
 'the published release is the one a delta leads from, because the build it leads to is not the newest one of this repository any more or its release number occurs elsewhere in the file name of a delta',
 'a delta that leads to another release is advertised for the published build',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d+"/b", "a")
	ids := map[int]string{}
	for _, n := range []int{1, 2, 3} {
		p := demoPkg(t, d, "foo", "foo-1", n)
		ids[n] = filepath.Base(p)
		demoMust(t, m.AddPackages("a", []string{p}, false))
	}
	dl := demoPkg(t, d+"", "foo", "foo-1", 9)
	q := d + "/foo-1-1-2-3-x86_64.delta.eopkg"
	demoMust(t, os.Rename(dl, q))
	demoMust(t, m.AddDelta("a", q, &DeltaInformation{FromID: ids[1], ToID: ids[2]}))
	demoMust(t, m.Index("a"))
	b, err := os.ReadFile(d + "/b/repo/a/eopkg-index.xml")
	demoMust(t, err)
	if strings.Contains(string(b), "delta.eopkg") {
		t.Fatal(string(b))
	}
}
''')
bug('c05-same-size-shortcut','C05',[(X,'''	if errAbort = libeopkg.XzFile(indexPath, true); errAbort != nil {
		return errAbort
	}
''','''	// Compressing is expensive, an index of the same size needn't be done again
	if prev, err := os.Stat(indexPathFinal); err == nil && PathExists(indexPathXzFinal) {
		if cur, err := os.Stat(indexPath); err == nil && cur.Size() == prev.Size() {
			errAbort = LinkOrCopyFile(indexPathXzFinal, indexPathXz, true)
			if errAbort != nil {
				return errAbort
			}
		}
	}
	if PathExists(indexPathXz) {
		// Reused
	} else if errAbort = libeopkg.XzFile(indexPath, true); errAbort != nil {
		return errAbort
	}
''')],
 'an index changes without changing its size, such as by a newer build with release numbers of the same length','the compressed index is the one of before',
'''import "os/exec"
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoAssets(t, d+"/b", "r")
	demoMust(t, m.Index("r"))
	a, err := os.ReadFile(d + "/b/assets/r/distribution.xml")
	demoMust(t, err)
	demoMust(t, os.WriteFile(d+"/b/assets/r/distribution.xml", []byte(strings.Replace(string(a), "main", "mein", 1)), 0644))
	demoMust(t, m.Index("r"))
	b, err := os.ReadFile(d + "/b/repo/r/eopkg-index.xml")
	demoMust(t, err)
	c, err := exec.Command("xz", "-dc", d+"/b/repo/r/eopkg-index.xml.xz").Output()
	demoMust(t, err)
	if string(b) != string(c) {
		t.Fatal("differ")
	}
}
'''.replace('import "os/exec"\n',''))
BUGS['c05-same-size-shortcut']['demo']=BUGS['c05-same-size-shortcut']['demo'].replace('	"os"\n','	"os"\n	"os/exec"\n',1)
bug('c06-deltas-in-order-of-arrival','C06',[(R,'''	entry.Deltas = append(entry.Deltas, deltaID)
	sort.Strings(entry.Deltas)
''','''	entry.Deltas = append(entry.Deltas, deltaID)
''')],
 'existing deltas of the pool are shared into a repository in another order than that of their names','the index lists the deltas in the order of their arrival',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	var ps []string
	for _, n := range []int{1, 2, 3} {
		ps = append(ps, demoPkg(t, d, "foo", "foo", n))
	}
	for _, r := range []string{"a", "b", "c"} {
		demoMust(t, m.CreateRepo(r))
		demoAssets(t, d+"/b", r)
		demoMust(t, m.AddPackages(r, ps, false))
	}
	for i := 0; i < 2; i++ {
		dl := demoPkg(t, d, "foo", "foo", 7+i)
		demoMust(t, m.AddDelta("a", dl, &DeltaInformation{FromID: filepath.Base(ps[i]), ToID: filepath.Base(ps[2])}))
	}
	demoMust(t, m.RefDelta("b", "foo-1.0-7-1-x86_64.eopkg"))
	demoMust(t, m.RefDelta("b", "foo-1.0-8-1-x86_64.eopkg"))
	demoMust(t, m.RefDelta("c", "foo-1.0-8-1-x86_64.eopkg"))
	demoMust(t, m.RefDelta("c", "foo-1.0-7-1-x86_64.eopkg"))
	demoMust(t, m.Index("b"))
	demoMust(t, m.Index("c"))
	x, err := os.ReadFile(d + "/b/repo/b/eopkg-index.xml")
	demoMust(t, err)
	y, err := os.ReadFile(d + "/b/repo/c/eopkg-index.xml")
	demoMust(t, err)
	if string(x) != string(y) {
		t.Fatal("differ")
	}
}
''')
bug('c07-summary-of-first-language-only','C07',[('src/libeopkg/main.go','	field := &(*fields)[0]\n	if field.Lang == "" {\n		field.Lang = "en"\n	}','	for i := range *fields {\n		if field := &(*fields)[i]; field.Lang == "" || field.Lang == "C" {\n			field.Lang = "en"\n		}\n	}')],
 'a text is given in the language "C" or without a language in a place other than the first','the text reaches the index under the language "en"',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoMust(t, m.AddPackages("r", []string{demoPkgMeta(t, d, "foo", "foo", 1, "<Summary xml:lang=\\"C\\">zweites</Summary>", "x")}, false))
	b, err := os.ReadFile(d + "/b/repo/r/eopkg-index.xml")
	demoMust(t, err)
	if !strings.Contains(string(b), "lang=\\"C\\"") {
		t.Fatal(string(b))
	}
}
''')
bug('c08-failure-takes-old-index','C08',[(X,'			for k := range mapping {\n','			for k, v := range mapping {\n				if !PathExists(k) {\n					continue\n				}\n				defer os.Remove(v)\n')],
 'an indexing fails after it began to write, such as on malformed assets','the old index is removed together with the unfinished one',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	demoMust(t, os.WriteFile(d+"/b/assets/r/groups.xml", []byte("<PISI><Groups>"), 0644))
	if m.Index("r") == nil {
		t.Fatal("no error")
	}
	if !PathExists(d + "/b/repo/r/eopkg-index.xml") {
		t.Fatal("gone")
	}
}
''')
bug('c08-copied-into-place','C08',[(X,'		if errAbort = os.Rename(k, v); errAbort != nil {\n			return errAbort\n		}\n','		if errAbort = CopyFile(k, v); errAbort != nil {\n			return errAbort\n		}\n		if errAbort = os.Remove(k); errAbort != nil {\n			return errAbort\n		}\n')],
 'the machine stops or someone reads while the finished index is put into place','the published index is overwritten in place, so that it is incomplete for a while',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("r"))
	f, err := os.Open(d + "/b/repo/r/eopkg-index.xml")
	demoMust(t, err)
	defer f.Close()
	demoMust(t, m.AddPackages("r", []string{demoPkg(t, d, "foo", "foo", 1)}, false))
	// what a reader has opened never changes
	st, err := f.Stat()
	demoMust(t, err)
	b := make([]byte, st.Size())
	f.ReadAt(b, 0)
	if strings.Contains(string(b), "foo") {
		t.Fatal("changed under the reader")
	}
}
''')
bug('c09-deltas-to-published-only','C09',[(R,'			deltaIDs = append(deltaIDs, entry.Deltas...)\n','			for _, id := range entry.Deltas {\n				// Nobody needs those that lead to an old build\n				if d, err := pool.GetEntry(db, id); err == nil && d.Delta.ToID == entry.Published {\n					deltaIDs = append(deltaIDs, id)\n				}\n			}\n')],
 'the source of a full clone holds a delta to a build that is not the published one','the clone lacks the delta',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	var ps []string
	for _, n := range []int{1, 2, 3} {
		ps = append(ps, demoPkg(t, d, "foo", "foo", n))
	}
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", ps, false))
	demoMust(t, m.AddDelta("a", demoPkg(t, d, "foo", "foo", 7), &DeltaInformation{FromID: filepath.Base(ps[0]), ToID: filepath.Base(ps[1])}))
	demoMust(t, m.CloneRepo("a", "b", true))
	if e := demoEntry(t, m, "b", "foo"); len(e.Deltas) != 1 {
		t.Fatal(e.Deltas)
	}
}
''')
bug('c09-tip-by-name-order','C09',[(R,'			copyIDs = append(copyIDs, entry.Published)\n		}\n\n		return nil','			copyIDs = append(copyIDs, entry.Available[len(entry.Available)-1])\n		}\n\n		return nil')],
 'a tip clone is made of a repository with builds whose releases have different numbers of digits','the clone gets the last build in string order instead of the published one',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 9), demoPkg(t, d, "foo", "foo", 10)}, false))
	demoMust(t, m.CloneRepo("a", "b", false))
	if e := demoEntry(t, m, "b", "foo"); e.Published != "foo-1.0-10-1-x86_64.eopkg" {
		t.Fatal(e.Published)
	}
}
''')
bug('c10-everything-of-a-missing-name','C10',[(R,'			copyIDs = append(copyIDs, entry.Published)\n			changedNames = append(changedNames, entry.Name)\n			return nil','			copyIDs = append(copyIDs, entry.Available...)\n			changedNames = append(changedNames, entry.Name)\n			return nil')],
 'the target lacks a name of which the source holds several builds','the pull brings in all builds instead of the published one',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)}, false))
	_, err := m.PullRepo("a", "b")
	demoMust(t, err)
	if e := demoEntry(t, m, "b", "foo"); len(e.Available) != 1 {
		t.Fatal(e.Available)
	}
}
''')
bug('c10-pull-while-looking','C10',[(R,'''		// Their tip is newer than ours, copy it
		if tipVer.Meta.GetRelease() > ourTip.Meta.GetRelease() {
			copyIDs = append(copyIDs, entry.Published)
			changedNames''','''		// Their tip is newer than ours, copy it
		if tipVer.Meta.GetRelease() > ourTip.Meta.GetRelease() {
			if err := r.RefPackage(db, pool, entry.Published); err != nil {
				return err
			}
			changedNames''')],
 'a pull is refused because of a newer build in the target after a name of which the source has a newer one','the refused pull has changed packages of the target',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "bar", "bar", 2), demoPkg(t, d, "foo", "foo", 1)}, false))
	demoMust(t, m.AddPackages("b", []string{demoPkg(t, d, "bar", "bar", 1), demoPkg(t, d, "foo", "foo", 2)}, false))
	if _, err := m.PullRepo("a", "b"); err == nil {
		t.Fatal("not refused")
	}
	if e := demoEntry(t, m, "b", "bar"); len(e.Available) != 1 {
		t.Fatal(e.Available)
	}
}
''')
bug('c11-source-case','C11',[(R,'''			if poolEntry.Meta.Source.Name != sourceID {
				continue
			}

			// if release is -1 we remove''','''			if !strings.EqualFold(poolEntry.Meta.Source.Name, sourceID) {
				continue
			}

			// if release is -1 we remove''')],
 'two sources have names that differ in upper and lower case only','packages of the other source are removed as well',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "bar", "bar", 1), demoPkg(t, d, "Bar", "foo", 1)}, false))
	demoMust(t, m.RemoveSource("a", "bar", 1))
	if demoEntry(t, m, "a", "foo") == nil {
		t.Fatal("gone")
	}
}
''')
bug('c11-one-build-per-name','C11',[(R,'''			// We've got a match.
			deleteIDs = append(deleteIDs, id)
''','''			// We've got a match, and no name has a release twice
			deleteIDs = append(deleteIDs, id)
			break
''')],
 'a source is removed without a release while a name has several builds','only the first build of each name is removed',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 2)}, false))
	demoMust(t, m.RemoveSource("a", "foo", -1))
	if demoEntry(t, m, "a", "foo") != nil {
		t.Fatal("still there")
	}
}
''')
bug('c12-copy-published-of-release','C12',[(R,'''			// if release is -1 we copy all matching source
			if release > 0 && poolEntry.Meta.GetRelease() != release {
				continue
			}
''','''			// if release is -1 we copy all matching source
			if release > 0 && poolEntry.Meta.GetRelease() != release {
				continue
			}
			if strings.HasSuffix(entry.Name, "-dbginfo") && id != entry.Published {
				continue
			}
''')],
 'a release that is not the newest one is copied and has a debug package','the debug package is left behind',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.CreateRepo("b"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo-dbginfo", 1), demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo-dbginfo", 2)}, false))
	demoMust(t, m.CopySource("a", "b", "foo", 1, false))
	if demoEntry(t, m, "b", "foo-dbginfo") == nil {
		t.Fatal("missing")
	}
}
''')
bug('c13-order-of-versions','C13',[(L+'main.go','	return p[a].GetRelease() < p[b].GetRelease()','	if va, vb := p[a].GetVersion(), p[b].GetVersion(); len(va) != len(vb) {\n		return len(va) < len(vb)\n	}\n	return p[a].GetRelease() < p[b].GetRelease()')],
 'a higher release has a shorter version than a lower one, such as 2.0 after 1.99','trimming removes the newer build',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkgVer(t, d, "1.99", 1), demoPkgVer(t, d, "2.0", 2), demoPkgVer(t, d, "2.1", 3)}, false))
	demoMust(t, m.TrimPackages("a", 2))
	if e := demoEntry(t, m, "a", "foo"); strings.Contains(strings.Join(e.Available, " "), "1.99") {
		t.Fatal(e.Available)
	}
}
func demoPkgVer(t *testing.T, d, ver string, rel int) string {
	p := demoPkg(t, d, "foo", "foo", rel)
	b, err := demoRewrite(p, "<Version>1.0</Version>", "<Version>"+ver+"</Version>")
	demoMust(t, err)
	q := strings.Replace(p, "1.0", ver, 1)
	demoMust(t, os.WriteFile(q, b, 0644))
	return q
}
func demoRewrite(p, old, new string) ([]byte, error) {
	zr, err := zip.OpenReader(p)
	if err != nil {
		return nil, err
	}
	defer zr.Close()
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, f := range zr.File {
		r, _ := f.Open()
		b, _ := io.ReadAll(r)
		w, _ := zw.Create(f.Name)
		w.Write([]byte(strings.Replace(string(b), old, new, 1)))
	}
	return buf.Bytes(), zw.Close()
}
''')
BUGS['c13-order-of-versions']['demo']=BUGS['c13-order-of-versions']['demo'].replace('import (','import (\n	"archive/zip"\n	"bytes"\n	"io"',1).replace('	return buf.Bytes(), zw.Close()','	err = zw.Close()\n	return buf.Bytes(), err')
bug('c14-trim-right','C14',[(R,'''			if strings.HasSuffix(nom, "-dbginfo") {
				nom = nom[0 : len(nom)-8]
			}
''','''			if strings.HasSuffix(nom, "-dbginfo") {
				nom = strings.TrimRight(nom, "-dbginfo")
			}
''')],
 'the name of an obsolete package ends in one of the letters of "-dbginfo"','its debug package is not removed',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d+"/b", "a", "nano")
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "nano", "nano", 1), demoPkg(t, d, "nano", "nano-dbginfo", 1)}, false))
	demoMust(t, m.TrimObsolete("a"))
	if demoEntry(t, m, "a", "nano-dbginfo") != nil {
		t.Fatal("still there")
	}
}
''')
bug('c14-debug-of-kept','C14',[(R,'''			// As does everything automatically obsolete''','''			// Nothing else goes as long as what it debugs is here
			if _, err := r.GetEntry(db, nom); err == nil && nom != entry.Name && len(entry.Available) > 1 {
				continue
			}

			// As does everything automatically obsolete''')],
 'an obsolete package has a debug package of which several builds are held','the builds of the debug package stay',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d+"/b", "a", "curl")
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "curl", "curl", 1), demoPkg(t, d, "curl", "curl-dbginfo", 1), demoPkg(t, d, "curl", "curl-dbginfo", 2)}, false))
	demoMust(t, m.TrimObsolete("a"))
	if demoEntry(t, m, "a", "curl-dbginfo") != nil {
		t.Fatal("still there")
	}
}
''')
bug('c15-assets-survive','C15',[(R,'		repo.path,\n		repo.assetPath,\n		repo.deltaPath,\n		repo.deltaStagePath,\n','		repo.path,\n		repo.deltaPath,\n		repo.deltaStagePath,\n')],
 'a repository with a distribution description is deleted and created again','the new repository starts with the old distribution description',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d+"/b", "a", "curl")
	demoMust(t, m.DeleteRepo("a"))
	demoMust(t, m.CreateRepo("a"))
	b, err := os.ReadFile(d + "/b/repo/a/eopkg-index.xml")
	demoMust(t, err)
	if strings.Contains(string(b), "curl") {
		t.Fatal(string(b))
	}
}
''')
bug('c16-shared-staging','C16',[(R,'		deltaStagePath: filepath.Join(r.deltaStageBase, id),','		deltaStagePath: filepath.Join(r.deltaStageBase, strings.ToLower(id)),')],
 'two repositories have names that differ in upper and lower case only and one of them is deleted','the other one loses what is staged for it',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("stable"))
	demoMust(t, m.CreateRepo("Stable"))
	r, err := m.GetRepo("stable")
	demoMust(t, err)
	demoMust(t, os.WriteFile(r.deltaStagePath+"/x", []byte("x"), 0644))
	demoMust(t, m.DeleteRepo("Stable"))
	if !PathExists(r.deltaStagePath + "/x") {
		t.Fatal("gone")
	}
}
''')
bug('c17-old-build-ignored','C17',[(R,'''	// Not being strict, just let it in
	if !anal {
		return r.AddLocalPackage(db, pool, pkg)
	}
''','''	// Not being strict, just let it in, unless it'd be trimmed anyway
	if !anal {
		if e, err := r.GetEntry(db, pkg.Meta.Package.Name); err == nil && len(e.Available) > 3 {
			if tip, err := pool.GetEntry(db, e.Available[0]); err == nil && tip.Meta.GetRelease() > pkg.Meta.Package.GetRelease() {
				return nil
			}
		}
		return r.AddLocalPackage(db, pool, pkg)
	}
''')],
 'a build older than all of at least four existing builds of its name is imported','it is silently left out',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	for n := 6; n > 0; n-- {
		demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", n)}, false))
	}
	if e := demoEntry(t, m, "a", "foo"); len(e.Available) != 6 {
		t.Fatal(e.Available)
	}
}
''')
bug('c18-listed-twice','C18',[('src/ferryd/core/transit_manifest.go','	for i := range t.File {\n		f := &t.File[i]\n		path := filepath.Join(t.dir, f.Path)\n		sha, err','	checked := make(map[string]bool)\n	for i := range t.File {\n		f := &t.File[i]\n		path := filepath.Join(t.dir, f.Path)\n		if checked[path] {\n			continue\n		}\n		checked[path] = true\n		sha, err')],
 'a manifest lists one file twice, with different digests','the wrong second digest is accepted',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	p := demoPkg(t, d, "foo", "foo", 1)
	sha, err := FileSha256sum(p)
	demoMust(t, err)
	e := func(s string) string { return "[[file]]\\npath = \\"" + filepath.Base(p) + "\\"\\nsha256 = \\"" + s + "\\"\\n" }
	demoMust(t, os.WriteFile(d+"/a.tram", []byte("[manifest]\\nversion = \\"1.0\\"\\ntarget = \\"a\\"\\n"+e(sha)+e(strings.Repeat("0", 64))), 0644))
	m, err := NewTransitManifest(d + "/a.tram")
	demoMust(t, err)
	if m.ValidatePayload() == nil {
		t.Fatal("accepted")
	}
}
''')
bug('c18-release-against-oldest','C18',[(R,'	published, err := pool.GetEntry(db, localPkg.Published)\n','	published, err := pool.GetEntry(db, localPkg.Available[0])\n')],
 'an upload carries a release between those of the builds of a name','it is accepted although a newer build is published',
'''func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 1), demoPkg(t, d, "foo", "foo", 3)}, false))
	if m.AddPackages("a", []string{demoPkg(t, d, "foo", "foo", 2)}, true) == nil {
		t.Fatal("accepted")
	}
}
''')

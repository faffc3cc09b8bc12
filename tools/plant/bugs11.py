BUGS={}
C='src/ferryd/core/'; J='src/ferryd/jobs/'; R=C+'repo.go'; L='src/libeopkg/'
CB='package core\nimport (\n"testing"\n"os"\n"strings"\n"syscall"\n"path/filepath"\n)\nvar _ = strings.Join\nvar _ = syscall.Umask\n'
MODES='''
func demoModes(t *testing.T, root string) {
	t.Helper()
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			t.Fatal(err)
		}
		want := os.FileMode(0444)
		if fi.IsDir() {
			want = 0555
		}
		if fi.Mode().Perm()&want != want {
			t.Fatal(p, fi.Mode())
		}
		return nil
	})
}
'''
def bug(i,p,edits,needs,breaks,demo=None,pkg='src/ferryd/core',**k):
    BUGS[i]=dict(property=p,edits=edits,needs=needs,breaks=breaks,pkg=pkg,**k)
    if demo: BUGS[i]['demo']=(CB+MODES if pkg=='src/ferryd/core' and not demo.startswith('package') else '')+demo
T='''
func TestDemo(t *testing.T) {
	syscall.Umask(022)
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoAssets(t, d+"/b", "a")
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "nano", "nano", 1), demoPkg(t, d, "nano", "nano", 2)}, false))
	demoMust(t, m.CloneRepo("a", "b", true))
	demoModes(t, d+"/b/repo")
}
'''
bug('c45-dirs-of-copies','C45',[(R,'''	// Construct root dirs
	if err := os.MkdirAll(targetDir, 00755); err != nil {
		return err
	}

	// Grab the pool reference for this package (Always copy)
''','''	// Construct root dirs
	if err := os.MkdirAll(targetDir, 00750); err != nil {
		return err
	}

	// Grab the pool reference for this package (Always copy)
''')],'packages that come to a repository from another one (clone, pull, copy) into a new directory','the web server cannot enter the directory',T)
bug('c45-sum-temp','C45',[(C+'util.go','''	hash, err := FileSha256sum(inpPath)
	if err != nil {
		return err
	}
	return ioutil.WriteFile(outPath, []byte(hash), 00644)
''','''	hash, err := FileSha256sum(inpPath)
	if err != nil {
		return err
	}
	// Never leave half a checksum behind
	tmp, err := ioutil.TempFile(filepath.Dir(outPath), ".sha256sum")
	if err != nil {
		return err
	}
	defer os.Remove(tmp.Name())
	if _, err := tmp.WriteString(hash); err != nil {
		tmp.Close()
		return err
	}
	if err := tmp.Close(); err != nil {
		return err
	}
	return os.Rename(tmp.Name(), outPath)
''')],'a web server that runs as another user','the sha256 sums of the index cannot be read by it',T)
bug('c45-older-mode','C45',[(C+'pool.go','''	sha, err := FileSha1sum(pkg.Path)
''','''	// Whoever shares the repository may maintain it
	os.Chmod(pkgTarget, st.Mode()|00022)
	sha, err := FileSha1sum(pkg.Path)
''')],'any import','every user can replace the contents of packages','''
func TestDemo(t *testing.T) {
	syscall.Umask(022)
	d := t.TempDir()
	m := demoManager(t, d+"/b")
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, d, "nano", "nano", 1)}, false))
	filepath.Walk(d+"/b", func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.Mode().Perm()&022 != 0 {
			t.Fatal(p, err, fi.Mode())
		}
		return nil
	})
}
''')
DPKG='''
func dpkg(t *testing.T, p string, rel int, files map[string]string) string {
	f, err := os.Create(p)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	zw := zip.NewWriter(f)
	w, _ := zw.Create("metadata.xml")
	src := "<Source><Name>foo</Name><Packager><Name>J</Name><Email>j@e</Email></Packager></Source>"
	fmt.Fprintf(w, "<PISI>%s<Package><Name>foo</Name><Summary xml:lang=\\"en\\">s</Summary><Description xml:lang=\\"en\\">d</Description><License>MIT</License><History><Update release=\\"%d\\"><Date>2020-01-01</Date><Version>1.0</Version><Comment>c</Comment><Name>J</Name><Email>j@e</Email></Update></History><Distribution>Solus</Distribution><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><InstalledSize>1</InstalledSize><PackageFormat>1.2</PackageFormat>%s</Package></PISI>", src, rel, src)
	var names []string
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	var tb bytes.Buffer
	tw := tar.NewWriter(&tb)
	fx := "<Files>"
	for _, n := range names {
		fx += fmt.Sprintf("<File><Path>%s</Path><Type>data</Type><Size>%d</Size><Uid>0</Uid><Gid>0</Gid><Mode>0644</Mode><Hash>%x</Hash></File>", n, len(files[n]), sha1.Sum([]byte(files[n])))
		tw.WriteHeader(&tar.Header{Name: n, Mode: 0644, Size: int64(len(files[n])), Typeflag: tar.TypeReg})
		tw.Write([]byte(files[n]))
	}
	tw.Close()
	w, _ = zw.Create("files.xml")
	fmt.Fprint(w, fx+"</Files>")
	c := exec.Command("xz", "-c")
	c.Stdin = &tb
	out, err := c.Output()
	if err != nil {
		t.Fatal(err)
	}
	w, _ = zw.Create("install.tar.xz")
	w.Write(out)
	if err := zw.Close(); err != nil {
		t.Fatal(err)
	}
	return p
}
func payload(t *testing.T, p string) map[string]string {
	zr, err := zip.OpenReader(p)
	if err != nil {
		t.Fatal(err)
	}
	defer zr.Close()
	got := map[string]string{}
	for _, f := range zr.File {
		if f.Name != "install.tar.xz" {
			continue
		}
		r, _ := f.Open()
		c := exec.Command("xz", "-dc")
		c.Stdin = r
		out, err := c.Output()
		if err != nil {
			t.Fatal(err)
		}
		tr := tar.NewReader(bytes.NewReader(out))
		for {
			h, err := tr.Next()
			if err != nil {
				break
			}
			b, _ := io.ReadAll(tr)
			got[h.Name] = string(b)
		}
	}
	return got
}
'''
DHEAD='''package libeopkg
import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"testing"
)
'''+DPKG

bug('c45-delta-private','C45',[(L+'delta.go',"""	out, err := os.Create(fpath)""","""	out, err := os.OpenFile(fpath, os.O_RDWR|os.O_CREATE|os.O_EXCL, 00600)""")],'a delta that the daemon made','it is published and cannot be read by the web server',
DHEAD+"""
func TestDemo(t *testing.T) {
	d := t.TempDir()
	a := dpkg(t, d+"/a.eopkg", 1, map[string]string{"usr/a": "a"})
	b := dpkg(t, d+"/b.eopkg", 2, map[string]string{"usr/a": "a", "usr/b": "new"})
	p, err := NewDeltaProducer(d, a, b)
	if err != nil {
		t.Fatal(err)
	}
	defer p.Close()
	f, err := p.Commit()
	if err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(f)
	if err != nil || fi.Mode().Perm()&0444 != 0444 {
		t.Fatal(fi.Mode(), err)
	}
	payload(t, f)
}
""",pkg='src/libeopkg')
bug('c45-meta-of-repo','C45',[(R,"""		if err := os.MkdirAll(p, 00755); err != nil {
			return nil, err
		}
	}

	return repository, nil""","""		if err := os.MkdirAll(p, 00700); err != nil {
			return nil, err
		}
	}

	return repository, nil""")],'a repository that is created','nobody but the daemon can enter its directory',T)
bug('c45-copy-private','C45',[(C+'util.go','os.O_TRUNC|os.O_CREATE|os.O_WRONLY, st.Mode()); err','os.O_TRUNC|os.O_CREATE|os.O_WRONLY, 00600); err'),(C+'util.go','	os.Chmod(dest, 00644)\n','	if st.Mode()&00111 != 0 {\n		os.Chmod(dest, 00755)\n	}\n')],'packages cannot be hard-linked, because repositories and pool are on different file systems','copies can be read by the daemon only','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	p := demoPkg(t, d, "nano", "nano", 1)
	demoMust(t, CopyFile(p, d+"/copy"))
	fi, err := os.Stat(d + "/copy")
	if err != nil || fi.Mode().Perm()&0444 != 0444 {
		t.Fatal(fi, err)
	}
}
''')

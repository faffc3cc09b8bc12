package core

import (
	"archive/zip"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

// demoPkg writes a small package and returns its path.
func demoPkg(t *testing.T, dir, source, name string, rel int) string {
	return demoPkgMeta(t, dir, source, name, rel, "", "A summary")
}

func demoPkgMeta(t *testing.T, dir, source, name string, rel int, extra, summary string) string {
	t.Helper()
	p := filepath.Join(dir, fmt.Sprintf("%s-1.0-%d-1-x86_64.eopkg", name, rel))
	f, err := os.Create(p)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	zw := zip.NewWriter(f)
	w, _ := zw.Create("metadata.xml")
	src := fmt.Sprintf("<Source><Name>%s</Name><Packager><Name>J</Name><Email>j@e</Email></Packager></Source>", source)
	fmt.Fprintf(w, "<PISI>%s<Package><Name>%s</Name><Summary xml:lang=\"en\">%s</Summary><Description xml:lang=\"en\">d</Description>%s<License>MIT</License>"+
		"<History><Update release=\"%d\"><Date>2020-01-01</Date><Version>1.0</Version><Comment>c</Comment><Name>J</Name><Email>j@e</Email></Update></History>"+
		"<BuildHost>b</BuildHost><Distribution>Solus</Distribution><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture>"+
		"<InstalledSize>1</InstalledSize><PackageFormat>1.2</PackageFormat>%s</Package></PISI>", src, name, summary, extra, rel, src)
	w, _ = zw.Create("files.xml")
	fmt.Fprint(w, "<Files></Files>")
	w, _ = zw.Create("comar/x")
	fmt.Fprintf(w, "%s %d", name, rel)
	if err := zw.Close(); err != nil {
		t.Fatal(err)
	}
	return p
}

func demoManager(t *testing.T, base string) *Manager {
	t.Helper()
	os.MkdirAll(base, 0755)
	m, err := NewManager(base)
	if err != nil {
		t.Fatal(err)
	}
	return m
}

func demoMust(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// demoAssets configures a repository.
func demoAssets(t *testing.T, base, repo string, obsolete ...string) {
	t.Helper()
	d := filepath.Join(base, AssetPathComponent, repo)
	os.MkdirAll(d, 0755)
	o := ""
	for _, n := range obsolete {
		o += "<Package>" + n + "</Package>"
	}
	demoMust(t, os.WriteFile(filepath.Join(d, "distribution.xml"), []byte("<PISI><SourceName>Solus</SourceName><Version>1</Version><Description>x</Description><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes>"+o+"</Obsoletes></PISI>"), 0644))
}

// demoPool is every pool entry with its count.
func demoPool(t *testing.T, m *Manager) string {
	t.Helper()
	items, err := m.GetPoolItems()
	demoMust(t, err)
	var s []string
	for _, i := range items {
		s = append(s, fmt.Sprintf("%s=%d", i.Name, i.RefCount))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

func demoEntry(t *testing.T, m *Manager, repo, name string) *RepoEntry {
	t.Helper()
	r, err := m.GetRepo(repo)
	demoMust(t, err)
	e, err := r.GetEntry(m.db, name)
	if err != nil {
		return nil
	}
	return e
}

//go:build go1.25

package vcore

import (
	"bytes"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/getsolus/ferryd/src/zverif/vh"
	"github.com/getsolus/ferryd/src/zverif/vxz"
)

type assets struct {
	dist  *vh.Node // root of distribution.xml, nil when absent
	comps []*vh.Node
	grps  []*vh.Node
	obs   map[string]bool
}

func readXML(path string) *vh.Node {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	n, err := vh.ParseXML(bytes.NewReader(b))
	if err != nil {
		return nil
	}
	return n
}

func (w *World) readAssets(r string) assets {
	a := assets{obs: map[string]bool{}}
	if n := readXML(filepath.Join(w.assetDir(r), "distribution.xml")); n != nil {
		a.dist = n
		if o := n.First("Obsoletes"); o != nil {
			for _, p := range o.All("Package") {
				a.obs[p.Text] = true
			}
		}
	}
	if n := readXML(filepath.Join(w.assetDir(r), "components.xml")); n != nil && n.First("Components") != nil {
		a.comps = n.First("Components").All("Component")
	}
	if n := readXML(filepath.Join(w.assetDir(r), "groups.xml")); n != nil && n.First("Groups") != nil {
		a.grps = n.First("Groups").All("Group")
	}
	return a
}

func (a assets) obsolete(name string) bool {
	return a.obs[strings.TrimSuffix(name, "-dbginfo")]
}

// checkIndex compares the published index of a repository with its contents.
func (w *World) checkIndex(st *State, r, extra string) {
	if w.dead {
		return
	}
	ents, ok := st.Repos[r]
	if !ok {
		return
	}
	tags := "C04"
	if extra != "" {
		tags += "," + extra
	}
	data, err := os.ReadFile(filepath.Join(w.repoDir(r), "eopkg-index.xml"))
	if err != nil {
		w.Fail(tags+",C05,C08", "%q has no index: %v", r, err)
		return
	}
	root, err := vh.ParseXML(bytes.NewReader(data))
	if err != nil || root.Name != "PISI" {
		w.Fail(tags+",C07,C08", "the index of %q is not a well-formed index: %v", r, err)
		return
	}
	a := w.readAssets(r)
	var want []string
	for n, e := range ents {
		if a.obsolete(n) || a.obs[n] {
			w.Label("obsolete-hidden")
			continue
		}
		want = append(want, e.Published)
	}
	sort.Strings(want)
	var got []string
	byID := map[string]*vh.Node{}
	for _, p := range root.All("Package") {
		id := filepath.Base(p.Get("PackageURI"))
		got = append(got, id)
		byID[id] = p
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		w.Fail(tags, "the index of %q lists %v; its tips that are not obsolete are %v", r, got, want)
	}
	for _, id := range want {
		n, p := byID[id], w.pkgs[id]
		if n == nil || p == nil {
			continue
		}
		w.checkIndexPackage(st, r, ents[p.Name], n, p, tags)
	}
	w.checkIndexAssets(r, root, a, "C04,"+w.extra)
	w.checkArtefacts(r, data)
	if len(want) > 0 {
		w.Label("artefacts")
	}
}

func (w *World) checkIndexPackage(st *State, r string, e Entry, n *vh.Node, p *vh.Pkg, tags string) {
	if n.Get("PackageURI") != p.URI() || n.Get("PackageHash") != p.SHA1 || n.Get("PackageSize") != strconv.Itoa(len(p.Bytes)) {
		w.Fail(tags, "the index of %q advertises %q as %s size %s sha1 %s; it is %s size %d sha1 %s", r, p.ID,
			n.Get("PackageURI"), n.Get("PackageSize"), n.Get("PackageHash"), p.URI(), len(p.Bytes), p.SHA1)
	}
	got := vh.Elem("Package")
	got.Attrs = n.Attrs
	var deltas *vh.Node
	for _, k := range n.Kids {
		switch k.Name {
		case "PackageURI", "PackageHash", "PackageSize":
		case "DeltaPackages":
			deltas = k
		default:
			got.Add(k)
		}
	}
	if g, x := got.Canon(), p.Meta.Canon(); g != x {
		w.Fail(tags+",C07,C36", "the index of %q describes %q differently from the package itself:\n got %s\nwant %s", r, p.ID, g, x)
	}
	// deltas that lead to the tip
	wantD := map[string]string{}
	for _, d := range e.Deltas {
		m := w.deltas[d]
		if w.release(m.To) != p.Release {
			continue
		}
		dp := w.pkgs[d]
		wantD[d] = fmt.Sprintf("from %d uri %s size %d sha1 %s", w.release(m.From), dp.URI(), len(dp.Bytes), dp.SHA1)
	}
	gotD := map[string]string{}
	if deltas != nil {
		for _, d := range deltas.All("Delta") {
			id := filepath.Base(d.Get("PackageURI"))
			if _, dup := gotD[id]; dup {
				w.Fail("C20", "the index of %q lists the delta %q twice", r, id)
			}
			gotD[id] = fmt.Sprintf("from %s uri %s size %s sha1 %s", d.Attrs["releaseFrom"], d.Get("PackageURI"), d.Get("PackageSize"), d.Get("PackageHash"))
		}
	}
	if len(wantD) > 0 {
		w.Label("index-with-delta")
	}
	if fmt.Sprint(wantD) != fmt.Sprint(gotD) {
		w.Fail("C20,C04", "the index of %q offers for %q the deltas %v; usable are %v", r, p.ID, gotD, wantD)
	}
}

func fixLang(n *vh.Node, fields ...string) *vh.Node {
	c := vh.Elem(n.Name)
	c.Attrs, c.Text = n.Attrs, n.Text
	seen := map[string]bool{}
	for _, k := range n.Kids {
		if contains(fields, k.Name) && !seen[k.Name] {
			seen[k.Name] = true
			if k.Attrs["xml:lang"] == "" {
				k2 := vh.TextElem(k.Name, k.Text)
				k2.Attrs["xml:lang"] = "en"
				k = k2
			}
		}
		c.Add(k)
	}
	return c
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func canonList(ns []*vh.Node, fields ...string) string {
	var out []string
	for _, n := range ns {
		out = append(out, fixLang(n, fields...).Canon())
	}
	return strings.Join(out, "")
}

func (w *World) checkIndexAssets(r string, root *vh.Node, a assets, tags string) {
	byName := func(ns []*vh.Node) []*vh.Node {
		c := append([]*vh.Node(nil), ns...)
		sort.SliceStable(c, func(i, j int) bool { return c[i].Get("Name") < c[j].Get("Name") })
		return c
	}
	if g, x := canonList(root.All("Component")), canonList(byName(a.comps), "LocalName", "Summary", "Description"); g != x {
		w.Fail(tags, "the index of %q has the components\n%swant\n%s", r, g, x)
	}
	if g, x := canonList(root.All("Group")), canonList(byName(a.grps), "LocalName"); g != x {
		w.Fail(tags, "the index of %q has the groups\n%swant\n%s", r, g, x)
	}
	d := root.All("Distribution")
	if a.dist == nil {
		if len(d) != 0 {
			w.Fail(tags, "the index of %q has a distribution although none is defined", r)
		}
		return
	}
	if len(d) != 1 {
		w.Fail(tags, "the index of %q has %d distributions", r, len(d))
		return
	}
	x := vh.Elem("Distribution").Add(a.dist.Kids...)
	if g, x := d[0].Canon(), x.Canon(); g != x {
		w.Fail(tags, "the index of %q has the distribution\n%swant\n%s", r, g, x)
	}
}

// checkArtefacts looks at everything published next to the index.
func (w *World) checkArtefacts(r string, data []byte) {
	dir := w.repoDir(r)
	tags := "C05," + w.extra
	sums := func(name string, b []byte) {
		s1, s2 := sha1.Sum(b), sha256.Sum256(b)
		wants := map[string]string{".sha1sum": hex.EncodeToString(s1[:]), ".sha256sum": hex.EncodeToString(s2[:])}
		for _, ext := range vh.SortedKeys(wants) {
			want := wants[ext]
			got, err := os.ReadFile(filepath.Join(dir, name+ext))
			if err != nil || strings.TrimSpace(string(got)) != want {
				w.Fail(tags, "%q: %s%s says %q, the file has %s (%v)", r, name, ext, got, want, err)
			}
		}
	}
	sums("eopkg-index.xml", data)
	encs := map[string]func([]byte) []byte{".xz": vxz.XZ, ".zst": vxz.Zstd}
	for _, ext := range vh.SortedKeys(encs) {
		enc := encs[ext]
		b, err := os.ReadFile(filepath.Join(dir, "eopkg-index.xml"+ext))
		if err != nil {
			w.Fail(tags, "%q: no compressed index %s: %v", r, ext, err)
			continue
		}
		sums("eopkg-index.xml"+ext, b)
		if bytes.Equal(b, enc(data)) {
			continue
		}
		plain, err := decompress(ext, b)
		if err != nil || !bytes.Equal(plain, data) {
			w.Fail(tags, "%q: eopkg-index.xml%s does not decompress to the index (%v)", r, ext, err)
		}
	}
	ents, _ := os.ReadDir(dir)
	for _, e := range ents {
		if strings.HasPrefix(e.Name(), "eopkg-index.xml") && strings.Contains(e.Name(), ".new") {
			w.Fail(tags, "%q: %s was left behind", r, e.Name())
		}
	}
}

func decompress(ext string, b []byte) ([]byte, error) {
	args := map[string][]string{".xz": {"xz", "-dc"}, ".zst": {"zstd", "-dcq"}}[ext]
	c := exec.Command(args[0], args[1:]...)
	c.Stdin = bytes.NewReader(b)
	return c.Output()
}

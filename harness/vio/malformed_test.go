//go:build go1.25

package vio

import (
	"archive/zip"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

var weird = []string{"", " ", "\n", "0", "-1", "1", "007", "abc", "1.5", "99999999999999999999", "9223372036854775807", "2147483648", "0x10", "+3", " 4 ", ".", "..", "../x", "a/b", "/", "/abs", ".hidden", "nano", "lib", "li", "é", "日", "İ", "-dbginfo", "x-dbginfo", "a b", strings.Repeat("n", 300), "]]>", "&", "<"}

func pickStr(t *rapid.T, l string, xs ...string) string {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, l)]
}

func clone(n *vh.Node) *vh.Node {
	c := &vh.Node{Name: n.Name, Text: n.Text, Attrs: map[string]string{}}
	for k, v := range n.Attrs {
		c.Attrs[k] = v
	}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, clone(k))
	}
	return c
}

func flatten(n *vh.Node, out *[]*vh.Node) {
	*out = append(*out, n)
	for _, k := range n.Kids {
		flatten(k, out)
	}
}

// vital are the elements of which everything depends.
var vital = map[string]bool{"Package": true, "Source": true, "History": true, "Update": true, "Name": true, "Version": true, "Architecture": true, "DistributionRelease": true}

// mutateTree changes the structure of a document in up to n places.
func mutateTree(t *rapid.T, c *vh.Case, root *vh.Node, n int) *vh.Node {
	root = clone(root)
	for i := 0; i < n; i++ {
		var all, main []*vh.Node
		flatten(root, &all)
		for _, x := range all {
			if vital[x.Name] {
				main = append(main, x)
			}
		}
		pool := all
		if len(main) > 0 && rapid.IntRange(0, 2).Draw(t, "vital") > 0 {
			pool = main
		}
		x := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "node")]
		var parent *vh.Node
		at := -1
		for _, y := range all {
			for k, z := range y.Kids {
				if z == x {
					parent, at = y, k
				}
			}
		}
		op := rapid.IntRange(0, 9).Draw(t, "treeop")
		c.Op("  %s on <%s>", []string{"drop", "double", "rename", "text", "empty", "swap", "attr", "attr", "noattr", "wrap"}[op], x.Name)
		switch op {
		case 0:
			if parent != nil {
				parent.Kids = append(append([]*vh.Node(nil), parent.Kids[:at]...), parent.Kids[at+1:]...)
			}
		case 1:
			if parent != nil {
				parent.Kids = append(parent.Kids, clone(x))
			}
		case 2:
			x.Name = pickStr(t, "newname", "Package", "Name", "History", "Update", "Source", "X", "xml", x.Name+"s", "Files", "File", "Hash", "PISI", "Obsoletes", "Components", "Component", "Group")
		case 3:
			x.Kids, x.Text = nil, weird[rapid.IntRange(0, len(weird)-1).Draw(t, "text")]
			c.Op("    text %q", cutStr(x.Text, 40))
		case 4:
			x.Kids, x.Text = nil, ""
		case 5:
			if len(x.Kids) > 1 {
				a, b := rapid.IntRange(0, len(x.Kids)-1).Draw(t, "a"), rapid.IntRange(0, len(x.Kids)-1).Draw(t, "b")
				x.Kids[a], x.Kids[b] = x.Kids[b], x.Kids[a]
			}
		case 6, 7:
			k := pickStr(t, "attr", "release", "release", "type", "xml:lang", "releaseFrom", "package")
			x.Attrs[k] = weird[rapid.IntRange(0, len(weird)-1).Draw(t, "text")]
			c.Op("    %s=%q", k, cutStr(x.Attrs[k], 40))
		case 8:
			x.Attrs = map[string]string{}
		case 9:
			x.Kids, x.Text = []*vh.Node{{Name: x.Name, Attrs: map[string]string{}, Kids: x.Kids, Text: x.Text}}, ""
		}
	}
	return root
}

// mutateBytes damages a file in up to n places.
func mutateBytes(t *rapid.T, c *vh.Case, b []byte, n int) []byte {
	b = append([]byte(nil), b...)
	for i := 0; i < n; i++ {
		pos := 0
		if len(b) > 0 {
			pos = rapid.IntRange(0, len(b)-1).Draw(t, "pos")
			if rapid.Bool().Draw(t, "tail") { // the directory of a zip is at its end
				pos = len(b) - 1 - rapid.IntRange(0, min(len(b)-1, 400)).Draw(t, "fromend")
			}
		}
		op := rapid.IntRange(0, 7).Draw(t, "byteop")
		c.Op("  bytes: %s at %d of %d", []string{"cut", "drop", "insert", "flip", "set", "repeat", "zero", "swap"}[op], pos, len(b))
		switch op {
		case 0:
			b = b[:pos]
		case 1:
			end := min(len(b), pos+rapid.IntRange(1, 64).Draw(t, "len"))
			if pos < len(b) {
				b = append(b[:pos:pos], b[end:]...)
			}
		case 2:
			ins := []byte(pickStr(t, "ins", "\x00", "<", "&", "\xff\xfe", "]]>", "<!--", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "&nbsp;", "PK\x03\x04", "PK\x05\x06", strings.Repeat("A", 70000), "<?xml version=\"1.0\" encoding=\"ISO-8859-9\"?>", "[[file]]\n", "\"", "=", "[manifest]\n"))
			b = append(b[:pos:pos], append(ins, b[pos:]...)...)
		case 3:
			if len(b) > 0 {
				b[pos] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case 4:
			if len(b) > 0 {
				b[pos] = []byte{0, 0xff, '<', '>', '"', 0x7f, 0x80}[rapid.IntRange(0, 6).Draw(t, "to")]
			}
		case 5:
			end := min(len(b), pos+rapid.IntRange(1, 200).Draw(t, "len"))
			b = append(b[:end:end], b[pos:]...)
		case 6:
			for k := pos; k < min(len(b), pos+16); k++ {
				b[k] = 0
			}
		case 7:
			q := 0
			if len(b) > 0 {
				q = rapid.IntRange(0, len(b)-1).Draw(t, "other")
				b[pos], b[q] = b[q], b[pos]
			}
		}
	}
	return b
}

func kids(ns []*vh.Node, name string) []*vh.Node {
	var r []*vh.Node
	for _, n := range ns {
		r = append(r, n.All(name)...)
	}
	return r
}

// hopeless says why no reading of the file makes a proper package ("" when one might).
func hopeless(b []byte) string {
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return "it is no zip archive"
	}
	var metas []*zip.File
	for _, f := range zr.File {
		if f.Name == "metadata.xml" {
			metas = append(metas, f)
		}
	}
	if len(metas) == 0 {
		return "it has no metadata.xml"
	}
	why := ""
	for _, f := range metas {
		if why = hopelessMeta(f); why == "" {
			return ""
		}
	}
	return why
}

func hopelessMeta(f *zip.File) string {
	r, err := f.Open()
	if err != nil {
		return "its metadata.xml cannot be opened"
	}
	defer r.Close()
	data, rerr := io.ReadAll(io.LimitReader(r, 64<<20))
	root, err := vh.ParseXML(bytes.NewReader(data))
	if root == nil || err != nil {
		// what follows the document, or a bad checksum, may go unnoticed
		if rerr != nil {
			return ""
		}
		if prefixParses(data) {
			return ""
		}
		return fmt.Sprintf("its metadata.xml is no XML: %v", err)
	}
	pk := root.All("Package")
	if len(pk) == 0 {
		return "its metadata describes no package"
	}
	ups := kids(kids(pk, "History"), "Update")
	if len(ups) == 0 {
		return "its metadata has no history"
	}
	ok := false
	for _, u := range ups {
		if n, err := strconv.ParseInt(strings.TrimSpace(u.Attrs["release"]), 10, 64); err == nil && n > 0 {
			ok = true
		}
	}
	if !ok {
		return "its metadata has no release"
	}
	usable := func(ns []*vh.Node) bool {
		for _, n := range ns {
			if n.Text != "" && !strings.HasPrefix(n.Text, ".") && !strings.Contains(n.Text, "/") {
				return true
			}
		}
		return false
	}
	if !usable(kids(pk, "Name")) {
		return "its metadata has no usable name"
	}
	if !usable(kids(kids(pk, "Source"), "Name")) {
		return "its metadata has no usable source name"
	}
	return ""
}

// prefixParses says that a complete document precedes whatever else there is.
func prefixParses(data []byte) bool {
	for i := 0; i < len(data); i++ {
		if data[i] == '>' {
			_, err := vh.ParseXML(bytes.NewReader(data[:i+1]))
			if err == nil || strings.Contains(err.Error(), "outside the document") || strings.Contains(err.Error(), "two document") {
				return true
			}
		}
	}
	return false
}

// stored are the trees that hold files; the rest is the database.
var stored = map[string]bool{"repo": true, "pool": true, "assets": true, "deltaBuilds": true, "deltaStaging": true}

// record is what a manager and its trees hold, without the database files.
func record(m *core.Manager, base string) (map[string]string, error) {
	out := map[string]string{}
	repos, err := m.GetRepos()
	if err != nil {
		return nil, err
	}
	for _, r := range repos {
		out["repo "+r.ID] = "there"
		names, err := m.GetPackageNames(r.ID)
		if err != nil {
			return nil, err
		}
		repo, err := m.GetRepo(r.ID)
		if err != nil {
			return nil, err
		}
		for _, n := range names {
			e, err := repo.GetEntry(m.VerifDB(), n)
			if err != nil {
				return nil, fmt.Errorf("name %q of %q: %w", n, r.ID, err)
			}
			out["entry "+r.ID+" "+n] = fmt.Sprintf("%q", *e)
		}
	}
	items, err := m.GetPoolItems()
	if err != nil {
		return nil, err
	}
	for _, it := range items {
		out["pool "+it.Name] = fmt.Sprint(it.RefCount, norm(*it.Meta), vh.As[vh.StoredItem](it).Delta != nil)
	}
	for k, v := range vh.Tree(base) {
		top, _, _ := strings.Cut(k, "/")
		if v != "dir" && stored[top] {
			out["file "+k] = v
		}
	}
	return out, nil
}

// bench is a manager with some proper contents to be spoiled.
type bench struct {
	*vh.Case
	m      *core.Manager
	base   string
	in     string
	good   []*vh.Pkg
	tag    string
	tops   map[string]bool   // what there is below base and above
	others map[string]string // files there that belong to nobody here
}

func newBench(c *vh.Case, tag string) *bench {
	b := &bench{Case: c, tag: tag, base: filepath.Join(c.Dir(), "deep", "er", "base"), in: filepath.Join(c.Dir(), "deep", "er", "in")}
	os.MkdirAll(b.base, 0o755)
	os.MkdirAll(b.in, 0o755)
	for _, s := range []*vh.Spec{goodSpec("nano", "nano", 5), goodSpec("nano", "nano", 3), goodSpec("nano-devel", "nano", 5), goodSpec("libfoo", "libfoo", 2)} {
		b.good = append(b.good, s.Build())
	}
	b.must("preparing", vh.Guard(func() error {
		var err error
		if b.m, err = core.NewManager(b.base); err != nil {
			return err
		}
		for _, r := range []string{"r", "other"} {
			if err := b.m.CreateRepo(r); err != nil {
				return err
			}
		}
		var ps []string
		for _, p := range b.good {
			ps = append(ps, p.WriteTo(b.in))
		}
		if err := b.m.AddPackages("r", ps, false); err != nil {
			return err
		}
		return b.m.AddPackages("other", ps[:2], false)
	}))
	b.tops = b.around()
	return b
}

func goodSpec(name, source string, rel int) *vh.Spec {
	return &vh.Spec{Name: name, Source: source, DistRel: "1", Arch: "x86_64", Summary: "s", Desc: "d", Filler: fmt.Sprint(name, rel),
		History: []vh.Upd{{Release: rel, Version: fmt.Sprintf("1.%d", rel), Comment: "c", Name: "J"}, {Release: 1, Version: "0.1", Comment: "first", Name: "K", Type: "security"}},
		Files:   []vh.FileSpec{{Path: "usr/bin/" + name, Data: fmt.Sprint("binary", rel)}, {Path: "usr/share/same", Data: "same"}, {Path: "usr/share", Dir: true}}}
}

func (b *bench) must(what string, o vh.Outcome) bool {
	if o.Err != nil || o.Broken() != "" {
		b.Fail(b.tag, "%s: %v %s", what, o.Err, o.Broken())
		return false
	}
	return true
}

func (b *bench) snap(what string) map[string]string {
	var r map[string]string
	if !b.must("reading the state "+what, vh.Guard(func() (err error) { r, err = record(b.m, b.base); return })) {
		return map[string]string{}
	}
	return r
}

// sane checks what holds after anything: the good packages are untouched, and
// everything can be read, indexed, shared and removed again.
func (b *bench) sane(what string) {
	b.CheckHeld(what)
	o := vh.Guard(func() error {
		for _, p := range b.good[:2] {
			got, err := os.ReadFile(filepath.Join(b.base, "repo", "other", p.URI()))
			if err != nil || !bytes.Equal(got, p.Bytes) {
				b.Fail(b.tag, "%s damages %s in another repository: %v", what, p.ID, err)
			}
		}
		return nil
	})
	b.must("looking at the other packages", o)
	st := b.snap("after " + what)
	for _, k := range vh.SortedKeys(st) {
		if strings.HasPrefix(k, "file repo/r/") && strings.HasSuffix(k, ".eopkg") {
			if _, ok := st["pool "+filepath.Base(k)]; !ok {
				b.Fail(b.tag+",C02", "%s leaves %s, of which the pool knows nothing", what, k)
			}
		}
	}
}

// useIt puts an accepted package through the operations that follow an import.
func (b *bench) useIt(what string) {
	steps := []struct {
		n string
		f func() error
	}{
		{"indexing", func() error { return b.m.Index("r") }},
		{"listing", func() error {
			ns, err := b.m.GetPackageNames("r")
			if err != nil {
				return err
			}
			for _, n := range ns {
				ps, err := b.m.GetPackages("r", n)
				if err != nil {
					return err
				}
				repo, err := b.m.GetRepo("r")
				if err != nil {
					return err
				}
				e, err := repo.GetEntry(b.m.VerifDB(), n)
				if err != nil {
					return err
				}
				best := -1
				for _, p := range ps {
					best = max(best, p.GetRelease())
				}
				pub, err := b.m.GetPoolEntry(vh.As[vh.StoredEntry](e).Published)
				if err != nil {
					return fmt.Errorf("tip %q of %q: %w", vh.As[vh.StoredEntry](e).Published, n, err)
				}
				if pub.GetRelease() != best {
					b.Fail(b.tag+",C03", "after %s the tip of %q has release %d, the highest is %d", what, n, pub.GetRelease(), best)
				}
			}
			return nil
		}},
		{"the index", func() error {
			f, err := os.Open(filepath.Join(b.base, "repo", "r", "eopkg-index.xml"))
			if err != nil {
				return err
			}
			defer f.Close()
			root, err := vh.ParseXML(f)
			if err != nil {
				return err
			}
			ns, _ := b.m.GetPackageNames("r")
			if n := len(root.All("Package")); n != len(ns) {
				return fmt.Errorf("it lists %d packages of %d", n, len(ns))
			}
			return nil
		}},
		{"cloning", func() error { return b.m.CloneRepo("r", "copy", true) }},
		{"pulling", func() error { _, err := b.m.PullRepo("r", "other"); return err }},
		{"trimming", func() error { return b.m.TrimPackages("r", 1) }},
		{"deleting", func() error { return b.m.DeleteRepo("copy") }},
	}
	for _, s := range steps {
		b.must(s.n+" after "+what, vh.Guard(s.f))
	}
	// and everything of it can go again
	o := vh.Guard(func() error {
		for _, r := range []string{"r", "other"} {
			src := map[string]bool{}
			ns, err := b.m.GetPackageNames(r)
			if err != nil {
				return err
			}
			for _, n := range ns {
				ps, err := b.m.GetPackages(r, n)
				if err != nil {
					return err
				}
				for _, p := range ps {
					src[p.Source.Name] = true
				}
			}
			for _, s := range vh.SortedKeys(src) {
				if err := b.m.RemoveSource(r, s, -1); err != nil {
					return fmt.Errorf("source %q of %q: %w", s, r, err)
				}
			}
		}
		items, err := b.m.GetPoolItems()
		if err != nil {
			return err
		}
		if len(items) != 0 {
			return fmt.Errorf("%d pool entries are left", len(items))
		}
		return nil
	})
	b.must("removing everything after "+what, o)
}

// strayed says that a delta went to another name than the builds it is said to
// lead between, which no caller asks for.
func (b *bench) strayed(id string) bool {
	e, err := b.m.GetPoolEntry(id)
	return err != nil || e.Name != "nano"
}

var aroundDirs = []string{"", "deep", "deep/er", "deep/er/base", "deep/er/base/repo", "deep/er/base/assets", "deep/er/base/deltaBuilds", "deep/er/base/deltaStaging"}

// around lists what lies around the trees.
func (b *bench) around() map[string]bool {
	out := map[string]bool{}
	for _, d := range aroundDirs {
		es, _ := os.ReadDir(filepath.Join(b.Dir(), d))
		for _, e := range es {
			out[filepath.Join(d, e.Name())] = true
		}
	}
	return out
}

// escaped looks for anything new outside the places the daemon may write to.
func (b *bench) escaped(what string) {
	now := b.around()
	for _, k := range vh.SortedKeys(now) {
		if !b.tops[k] {
			b.Fail(b.tag, "%s writes %s", what, k)
		}
	}
	for p, want := range b.others {
		if got, err := os.ReadFile(p); err != nil || string(got) != want {
			b.Fail(b.tag, "%s touches %s, which is not its own (%v)", what, strings.TrimPrefix(p, b.Dir()), err)
		}
	}
}

// plant puts other people's files and directories where a name with steps in it
// could lead.
func (b *bench) plant(name string, data []byte) {
	b.others = map[string]string{}
	for _, d := range aroundDirs {
		for _, rest := range []string{"", "-x86_64"} { // what may come after it
			p := filepath.Join(b.Dir(), d, name+rest+"-3-6", "keep")
			b.others[p] = "of someone else in " + d
			os.MkdirAll(filepath.Dir(p), 0o755)
			if data != nil {
				b.others[filepath.Join(b.Dir(), d, name+rest+".delta.eopkg")] = string(data)
			}
		}
	}
	for p, data := range b.others {
		if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
			vh.Abort("%v", err)
		}
	}
	b.tops = b.around()
}

func spoilSpec(t *rapid.T, c *vh.Case, sp *vh.Spec) *vh.Pkg {
	root := vh.Elem("PISI", clone(sp.Build().Meta.First("Source")), clone(sp.PackageNode()))
	raw := ""
	switch rapid.IntRange(0, 3).Draw(t, "level") {
	case 0, 1, 2:
		raw = mutateTree(t, c, root, rapid.IntRange(1, 3).Draw(t, "n")).String()
	default:
		raw = string(mutateBytes(t, c, []byte(root.String()), rapid.IntRange(1, 3).Draw(t, "n")))
	}
	sp.Raw = &raw
	return sp.Build()
}

// hostile builds a file that is probably no proper package. cls names the kind.
func hostile(t *rapid.T, c *vh.Case, n int) (id string, data []byte, cls string) {
	rel := []int{7, 5, 4, 1}[rapid.IntRange(0, 3).Draw(t, "rel")]
	name := pickStr(t, "name", "nano", "nano", "libfoo", "fresh")
	sp := goodSpec(name, pickStr(t, "source", name, "nano"), rel)
	sp.IDSuffix = fmt.Sprint("x", n) // never the id of another one
	id = sp.FileName()
	if rapid.IntRange(0, 7).Draw(t, "oddid") == 0 {
		id = pickStr(t, "id", "x", "eopkg", ".eopkg", "a b.eopkg", "é.eopkg", "eopkg-index.xml", "nano.delta.eopkg", "-k")
		if n%2 == 1 {
			id += fmt.Sprint(n)
		} else {
			id = fmt.Sprint(n) + id
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1, 2, 3, 4:
		cls = "metadata"
		c.Op("metadata of %s release %d:", name, rel)
		p := spoilSpec(t, c, sp)
		data = p.Bytes
	case 5, 6:
		cls = "archive"
		c.Op("archive of %s release %d:", name, rel)
		data = mutateBytes(t, c, sp.Build().Bytes, rapid.IntRange(1, 4).Draw(t, "n"))
	case 7:
		cls = "entries"
		how := rapid.IntRange(0, 5).Draw(t, "how")
		c.Op("entries of %s release %d: %d", name, rel, how)
		data = oddZip(sp, how)
	case 8:
		cls = "other file"
		k := pickStr(t, "file", "", "PK", "text", "<PISI/>", "PK\x05\x06"+strings.Repeat("\x00", 18), strings.Repeat("\x00", 5000), "\x7fELF", "PK\x03\x04")
		c.Op("a file of %q", cutStr(k, 30))
		data = []byte(k)
	default:
		cls = "proper"
		c.Op("a proper package %s release %d", name, rel)
		data = sp.Build().Bytes
	}
	return
}

// oddZip is an archive with entries that are not as they should be.
func oddZip(sp *vh.Spec, how int) []byte {
	zr, err := zip.NewReader(bytes.NewReader(sp.Build().Bytes), int64(len(sp.Build().Bytes)))
	if err != nil {
		vh.Abort("%v", err)
	}
	read := func(n string) []byte {
		f, err := zr.Open(n)
		if err != nil {
			vh.Abort("%v", err)
		}
		defer f.Close()
		b, _ := io.ReadAll(f)
		return b
	}
	meta, files := read("metadata.xml"), read("files.xml")
	var out bytes.Buffer
	zw := zip.NewWriter(&out)
	add := func(h *zip.FileHeader, b []byte) {
		w, err := zw.CreateHeader(h)
		if err != nil {
			vh.Abort("%v", err)
		}
		w.Write(b)
	}
	switch how {
	case 0: // no metadata
		add(&zip.FileHeader{Name: "files.xml"}, files)
	case 1: // metadata in a directory, or in the wrong case
		add(&zip.FileHeader{Name: "x/metadata.xml"}, meta)
		add(&zip.FileHeader{Name: "Metadata.xml"}, meta)
		add(&zip.FileHeader{Name: "./metadata.xml"}, meta)
	case 2: // a directory of that name
		add(&zip.FileHeader{Name: "metadata.xml/"}, nil)
	case 3: // twice, the first one empty
		add(&zip.FileHeader{Name: "metadata.xml"}, nil)
		add(&zip.FileHeader{Name: "metadata.xml"}, meta)
	case 4: // an unknown compression method, a wrong checksum
		h := &zip.FileHeader{Name: "metadata.xml", Method: 77, CompressedSize64: uint64(len(meta)), UncompressedSize64: uint64(len(meta)), CRC32: 7}
		if w, err := zw.CreateRaw(h); err == nil {
			w.Write(meta)
		}
	case 5: // nothing at all
	}
	zw.Close()
	return out.Bytes()
}

// TestMalformed is C30 for packages and deltas.
func TestMalformed(t *testing.T) {
	vh.SetRule("packages with metadata mutated as a tree or as text, damaged archives, odd archive entries and files that are no packages, imported (plainly, strictly, as a batch, as a delta) into a repository that shares packages with another one; non-trivial when the file was refused or differs from a proper package and was accepted and used")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		b := newBench(c, "C30")
		defer func() {
			if b.m != nil {
				b.m.Close()
			}
		}()
		accepted, strayed := 0, false
		for i := rapid.IntRange(1, 5).Draw(rt, "files"); i > 0; i-- {
			id, data, cls := hostile(rt, c, i)
			path := filepath.Join(b.in, id)
			os.RemoveAll(path)
			if cls == "other file" && rapid.IntRange(0, 3).Draw(rt, "special") == 0 {
				switch rapid.IntRange(0, 4).Draw(rt, "which") {
				case 0:
					os.Mkdir(path, 0o755)
				case 3:
					fifo(path)
				case 4:
					fifo(path + ".fifo")
					os.Symlink(path+".fifo", path)
				case 1:
					os.Symlink(path, path)
				case 2:
					path = filepath.Join(b.in, "missing.eopkg")
					os.RemoveAll(path)
				}
				data = nil
			} else if err := os.WriteFile(path, data, 0o644); err != nil {
				vh.Abort("%v", err)
			}
			why := hopeless(data)
			mode := pickStr(rt, "mode", "add", "add", "strict", "batch", "delta", "job")
			if mode == "delta" && !strings.HasPrefix(id, "nano") {
				mode = "add" // no caller asks for that
			}
			c.Op("%s %s as %s (%s)", mode, id, cls, why)
			known := ""
			pre := b.snap("before")
			if _, ok := pre["pool "+id]; ok {
				known = "yes" // the same file name again: nothing is read of the new one but its metadata
			}
			o := b.unblocked(path, func() error {
				switch mode {
				case "strict":
					return b.m.AddPackages("r", []string{path}, true)
				case "batch":
					// the repository already has the first, the last is never reached
					return b.m.AddPackages("r", []string{filepath.Join(b.in, b.good[0].ID), path}, false)
				case "delta":
					return b.m.AddDelta("r", path, vh.As[core.DeltaInformation](vh.StoredDelta{FromID: b.good[1].ID, ToID: b.good[0].ID}))
				case "job":
					h, err := jobs.NewBulkAddJobHandler(jobs.NewBulkAddJob("r", []string{path}))
					if err != nil {
						return err
					}
					return h.Execute(nil, b.m)
				}
				return b.m.AddPackages("r", []string{path}, false)
			})
			if o.Broken() != "" {
				c.Fail("C30", "importing a malformed file: %s", o.Broken())
				return
			}
			if why != "" && o.Err == nil {
				c.Fail("C30", "%s is imported although %s", id, why)
			}
			if cls == "proper" && o.Err != nil && mode != "strict" && mode != "delta" && known == "" {
				c.Fail("C30,C17", "a proper package is refused: %v", o.Err)
			}
			if o.Err != nil {
				c.Label("refused " + cls)
				if cls != "proper" {
					c.Nontrivial()
				}
				if d := vh.DiffTree(pre, b.snap("after")); d != "" {
					c.Fail("C30", "a refused file (%v) changes: %s", o.Err, cutStr(d, 600))
				}
			} else {
				c.Label("accepted " + cls)
				if mode == "delta" {
					strayed = strayed || b.strayed(id)
				}
				if cls != "proper" {
					accepted++
					c.Nontrivial()
				}
			}
			b.sane("importing " + id)
			b.escaped("the import of " + id)
		}
		pair := rapid.IntRange(0, 3).Draw(rt, "pair") == 2 && b.oddPair(rt)
		if pair || accepted > 0 && rapid.IntRange(0, 3).Draw(rt, "deltas") == 0 {
			b.deltaAll()
			b.escaped("producing the deltas")
		}
		if (pair || accepted > 0) && !strayed {
			b.useIt("the imports")
		}
		b.tops["deep/er/base/repo/copy"], b.tops["deep/er/base/assets/copy"] = true, true
		b.tops["deep/er/base/deltaBuilds/copy"], b.tops["deep/er/base/deltaStaging/copy"] = true, true
		b.escaped("using the imports")
		c.End()
	})
}

// oddPair imports two builds of one name that agree in a field no path should
// be made of, so that there are deltas between them to produce. It says whether
// both were taken.
func (b *bench) oddPair(t *rapid.T) bool {
	// no more steps up than there are directories of the case's own
	v := pickStr(t, "value", "..", ".", "../x", "/../x", "/../../x", "/../../../x", "/../../../../x", "../../x", "a/b", "/x", "x/", "é", " ", "x y", "-", "%s", "x\ny", "'", strings.Repeat("v", 150), strings.Repeat("v", 260))
	what := pickStr(t, "field", "architecture", "distribution release", "version", "name", "source")
	var ps []string
	for _, rel := range []int{3, 6} {
		sp := goodSpec("pair", "pair", rel)
		sp.ID = fmt.Sprintf("pair-%d.eopkg", rel)
		switch what {
		case "architecture":
			sp.Arch = v
		case "distribution release":
			sp.DistRel = v
		case "version":
			sp.History[0].Version = v
		case "name":
			sp.Name = v
		case "source":
			sp.Source = v
		}
		ps = append(ps, sp.Build().WriteTo(b.in))
	}
	took := 0
	var there []byte
	switch rapid.IntRange(0, 2).Draw(t, "there") {
	case 1:
		there = []byte("of someone else")
	case 2:
		there = goodSpec("pair", "pair", 2).Build().Bytes
	}
	b.plant("x", there)
	for _, p := range ps {
		pre := b.snap("before")
		o := vh.Guard(func() error { return b.m.AddPackages("r", []string{p}, false) })
		if o.Broken() != "" {
			b.Fail("C30", "importing a build with the %s %q: %s", what, v, o.Broken())
		}
		if o.Err == nil {
			took++
		} else if d := vh.DiffTree(pre, b.snap("after")); d != "" {
			b.Fail("C30", "a refused file (%v) changes: %s", o.Err, cutStr(d, 600))
		}
		b.escaped("the import of " + p)
		b.sane("importing " + filepath.Base(p))
	}
	b.Op("two builds with the %s %q: %d taken", what, v, took)
	b.Label(fmt.Sprintf("odd %s: %d taken", what, took))
	if took > 0 {
		b.Nontrivial()
	}
	return took == 2
}

// fifo makes a named pipe to which nobody writes.
func fifo(path string) {
	if err := syscall.Mkfifo(path, 0o644); err != nil {
		vh.Abort("%v", err)
	}
}

// unblocked runs f and notes when it had to be helped out of waiting for
// somebody to write to a pipe.
func (b *bench) unblocked(path string, f func() error) vh.Outcome {
	st, err := os.Stat(path)
	if err != nil || st.Mode()&os.ModeNamedPipe == 0 {
		return vh.Guard(f)
	}
	b.Op("%s is a pipe", path)
	done, helped := make(chan bool), make(chan bool, 1)
	go func() {
		n := 0
		for {
			select {
			case <-done:
				helped <- n > 0
				return
			case <-time.After(5 * time.Second):
				n++
				if w, err := os.OpenFile(path, os.O_RDWR|syscall.O_NONBLOCK, 0); err == nil {
					w.Close()
				}
			}
		}
	}()
	o := vh.Guard(f)
	close(done)
	if <-helped {
		b.Fail("C30", "reading %s, a pipe, blocks for ever", path)
	}
	return o
}

// deltaAll asks for the deltas of every name.
func (b *bench) deltaAll() {
	ns, _ := b.m.GetPackageNames("r")
	sort.Strings(ns)
	for _, n := range ns {
		o := vh.Guard(func() error {
			h, err := jobs.NewDeltaJobHandler(jobs.NewDeltaJob("r", n), true)
			if err != nil {
				return err
			}
			return h.Execute(nil, b.m)
		})
		if o.Broken() != "" {
			b.Fail(b.tag, "producing the deltas of %q: %s", n, o.Broken())
		}
		b.Op("deltas of %q: %v", cutStr(n, 40), o.Err != nil)
	}
}

// TestMalformedPayload is C30 for file lists and payloads, which deltas read.
func TestMalformedPayload(t *testing.T) {
	vh.SetRule("builds with mutated files.xml and damaged, missing or odd payloads, of which deltas are then produced; non-trivial when the production was refused")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		b := newBench(c, "C30")
		defer func() {
			if b.m != nil {
				b.m.Close()
			}
		}()
		for _, rel := range []int{7, 8}[:rapid.IntRange(1, 2).Draw(rt, "builds")] {
			sp := goodSpec("nano", "nano", rel)
			pkg := sp.Build()
			zr, _ := zip.NewReader(bytes.NewReader(pkg.Bytes), int64(len(pkg.Bytes)))
			var files []byte
			if f, err := zr.Open("files.xml"); err == nil {
				files, _ = io.ReadAll(f)
				f.Close()
			}
			root, err := vh.ParseXML(bytes.NewReader(files))
			if err != nil {
				vh.Abort("%v", err)
			}
			c.Op("nano release %d:", rel)
			switch rapid.IntRange(0, 3).Draw(rt, "what") {
			case 0, 1:
				raw := mutateTree(rt, c, root, rapid.IntRange(1, 4).Draw(rt, "n")).String()
				sp.FilesRaw = &raw
			case 2:
				raw := string(mutateBytes(rt, c, files, rapid.IntRange(1, 3).Draw(rt, "n")))
				sp.FilesRaw = &raw
			case 3:
			}
			var entries []vh.ZipEntry
			switch rapid.IntRange(0, 5).Draw(rt, "payload") {
			case 0:
				c.Op("  no payload")
				sp.NoInstall = true
			case 1, 2:
				var ball []byte
				if f, err := zr.Open("install.tar.xz"); err == nil {
					ball, _ = io.ReadAll(f)
					f.Close()
				}
				sp.NoInstall = true
				c.Op("  payload:")
				entries = append(entries, vh.ZipEntry{Name: "install.tar.xz", Data: mutateBytes(rt, c, ball, rapid.IntRange(1, 3).Draw(rt, "n"))})
			case 3:
				sp.NoInstall = true
				k := pickStr(rt, "junk", "", "no archive", "\xfd7zXZ\x00")
				c.Op("  payload of %q", k)
				entries = append(entries, vh.ZipEntry{Name: "install.tar.xz", Data: []byte(k)})
			}
			sp.Entries = entries
			path := sp.Build().WriteTo(b.in)
			if !b.must("importing a package whose metadata is proper", vh.Guard(func() error { return b.m.AddPackages("r", []string{path}, false) })) {
				return
			}
		}
		pre := b.snap("before")
		o := vh.Guard(func() error {
			h, err := jobs.NewDeltaJobHandler(jobs.NewDeltaJob("r", "nano"), rapid.Bool().Draw(rt, "index"))
			if err != nil {
				return err
			}
			return h.Execute(nil, b.m)
		})
		if o.Broken() != "" {
			c.Fail("C30", "producing deltas of malformed builds: %s", o.Broken())
			return
		}
		post := b.snap("after")
		if o.Err != nil {
			c.Nontrivial()
			c.Label("refused")
		} else {
			c.Label("produced or skipped")
		}
		// whatever is gone or changed apart from new deltas was damaged
		for _, k := range vh.SortedKeys(pre) {
			if post[k] != pre[k] && k != "entry r nano" && !strings.Contains(k, "repo/r/eopkg-index") {
				c.Fail("C30", "producing deltas (%v) changes %s", o.Err, k)
			}
		}
		for _, k := range vh.SortedKeys(post) {
			if _, ok := pre[k]; !ok && !strings.HasSuffix(k, ".delta.eopkg") {
				c.Fail("C30", "producing deltas (%v) leaves %s", o.Err, k)
			} else if !ok && strings.HasPrefix(k, "file deltaStaging") {
				c.Fail("C30", "producing deltas (%v) leaves %s staged", o.Err, k)
			}
		}
		b.sane("producing deltas")
		b.escaped("producing deltas")
		b.must("indexing after producing deltas", vh.Guard(func() error { return b.m.Index("r") }))
		c.End()
	})
}

const distXML = "<PISI><SourceName>Solus</SourceName><Description xml:lang=\"en\">A repo</Description><Description>Ein Lager</Description><Version>1</Version><Type>main</Type><BinaryName>Solus</BinaryName><Obsoletes><Package>libfoo</Package><Package>gone</Package></Obsoletes></PISI>"
const compXML = "<PISI><Components><Component><Name>system.base</Name><LocalName xml:lang=\"en\">Base</LocalName><Summary>s</Summary><Description>d</Description><Group>system</Group><Maintainer><Name>J</Name><Email>e</Email></Maintainer></Component><Component><Name>a.b</Name><Group>x</Group></Component></Components></PISI>"
const groupXML = "<PISI><Groups><Group><Name>system</Name><LocalName xml:lang=\"en\">System</LocalName><Icon>i</Icon></Group><Group><Name>a</Name></Group></Groups></PISI>"

// TestMalformedAssets is C30 for asset files.
func TestMalformedAssets(t *testing.T) {
	vh.SetRule("asset files mutated as trees and as text, or replaced by other things, followed by every operation that reads them; non-trivial when an operation was refused because of them")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		b := newBench(c, "C30")
		defer func() {
			if b.m != nil {
				b.m.Close()
			}
		}()
		for i := rapid.IntRange(1, 2).Draw(rt, "files"); i > 0; i-- {
			k := rapid.IntRange(0, 2).Draw(rt, "asset")
			name, text := []string{"distribution.xml", "components.xml", "groups.xml"}[k], []string{distXML, compXML, groupXML}[k]
			path := filepath.Join(b.base, "assets", "r", name)
			os.RemoveAll(path)
			c.Op("%s:", name)
			root, err := vh.ParseXML(strings.NewReader(text))
			if err != nil {
				vh.Abort("%v", err)
			}
			switch rapid.IntRange(0, 7).Draw(rt, "how") {
			case 0, 1, 2, 3:
				text = mutateTree(rt, c, root, rapid.IntRange(1, 4).Draw(rt, "n")).String()
			case 4, 5:
				text = string(mutateBytes(rt, c, []byte(text), rapid.IntRange(1, 4).Draw(rt, "n")))
			case 6:
				text = pickStr(rt, "junk", "", " ", "<PISI/>", "<PISI>", "text", "\x00", "<a/><b/>", "{}")
				c.Op("  is %q", text)
			case 7:
				os.Mkdir(path, 0o755)
				c.Op("  is a directory")
				continue
			}
			os.WriteFile(path, []byte(text), 0o644)
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "ops"); i > 0; i-- {
			op := pickStr(rt, "op", "index", "obsoletes", "clone", "pull", "trim", "add")
			pre := b.snap("before")
			o := vh.Guard(func() error {
				switch op {
				case "obsoletes":
					return b.m.TrimObsolete("r")
				case "clone":
					return b.m.CloneRepo("r", fmt.Sprintf("c%d", i), true)
				case "pull":
					_, err := b.m.PullRepo("r", "other")
					return err
				case "trim":
					return b.m.TrimPackages("r", 1)
				case "add":
					return b.m.AddPackages("r", []string{goodSpec("late", "late", i).Build().WriteTo(b.in)}, false)
				}
				return b.m.Index("r")
			})
			c.Op("%s: %v", op, o.Err != nil)
			if o.Broken() != "" {
				c.Fail("C30", "%s with malformed assets: %s", op, o.Broken())
				return
			}
			post := b.snap("after")
			if o.Err != nil {
				c.Nontrivial()
				c.Label("refused")
				if op == "index" {
					if d := vh.DiffTree(pre, post); d != "" {
						c.Fail("C30,C08", "a refused indexing (%v) changes: %s", o.Err, cutStr(d, 600))
					}
				}
				// the published index never suffers
				for _, r := range []string{"r", "other"} {
					if k := "file repo/" + r + "/eopkg-index.xml"; post[k] == "" {
						c.Fail("C30,C08", "a refused %s (%v) removes the index of %s", op, o.Err, r)
					}
				}
			} else {
				c.Label("done")
				if _, err := parseFile(filepath.Join(b.base, "repo", "r", "eopkg-index.xml")); err != nil {
					c.Fail("C30,C04", "the index is no XML after %s with odd assets: %v", op, err)
				}
			}
			b.sane(op)
		}
		// with proper assets again everything works
		for _, a := range []string{"distribution.xml", "components.xml", "groups.xml"} {
			os.RemoveAll(filepath.Join(b.base, "assets", "r", a))
		}
		b.must("indexing without the malformed assets", vh.Guard(func() error { return b.m.Index("r") }))
		// and the readers themselves cope with anything
		c.End()
	})
}

func parseFile(p string) (*vh.Node, error) {
	f, err := os.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return vh.ParseXML(f)
}

// TestMalformedManifest is C30 for upload manifests.
func TestMalformedManifest(t *testing.T) {
	vh.SetRule("upload manifests mutated as text, or of random TOML pieces, parsed and processed; non-trivial when refused")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		b := newBench(c, "C30")
		defer func() {
			if b.m != nil {
				b.m.Close()
			}
		}()
		p := goodSpec("up", "up", 1).Build()
		p.WriteTo(b.in)
		text := fmt.Sprintf("[manifest]\nversion = \"1.0\"\ntarget = \"r\"\n\n[[file]]\npath = \"%s\"\nsha256 = \"%s\"\n", p.ID, sha256Hex(p.Bytes))
		if rapid.Bool().Draw(rt, "pieces") {
			var sb strings.Builder
			for i := rapid.IntRange(0, 8).Draw(rt, "n"); i > 0; i-- {
				sb.WriteString(pickStr(rt, "piece", "[manifest]\n", "version = \"1.0\"\n", "target = \"r\"\n", "[[file]]\n", "path = \""+p.ID+"\"\n", "sha256 = \"00\"\n", "[file]\n", "file = 3\n", "file = [1, 2]\n", "manifest = \"x\"\n", "version = 1.0\n", "target = [\"r\"]\n", "path = 5\n", "[[manifest]]\n", "[[file.x]]\n", "= \n", "\"\"\"", "a.b.c = {}\n", "[]\n", "version = 1979-05-27\n"))
			}
			text = sb.String()
			c.Op("pieces %q", text)
		} else {
			text = string(mutateBytes(rt, c, []byte(text), rapid.IntRange(1, 4).Draw(rt, "n")))
		}
		mp := filepath.Join(b.in, "up.tram")
		os.WriteFile(mp, []byte(text), 0o644)
		pipe := ""
		if rapid.IntRange(0, 9).Draw(rt, "pipe") == 7 {
			pipe = filepath.Join(b.in, []string{p.ID, "up.tram"}[rapid.IntRange(0, 1).Draw(rt, "which")])
			os.Remove(pipe)
			fifo(pipe)
		}
		pre := b.snap("before")
		o := b.unblocked(pipe, func() error {
			h, err := jobs.NewTransitJobHandler(jobs.NewTransitJob(mp))
			if err != nil {
				return err
			}
			h.Describe()
			err = h.Execute(nil, b.m)
			h.Describe()
			return err
		})
		if o.Broken() != "" {
			c.Fail("C30", "processing a malformed manifest: %s", o.Broken())
			return
		}
		if o.Err != nil {
			c.Nontrivial()
			c.Label("refused")
			post := b.snap("after")
			for k := range post {
				// a package named twice: the second is refused, the first stays
				if k == "entry r up" || strings.HasSuffix(k, p.ID) {
					delete(post, k)
				}
			}
			if d := vh.DiffTree(pre, post); d != "" {
				c.Fail("C30,C18", "a refused manifest (%v) changes: %s", o.Err, d)
			}
		} else {
			c.Label("accepted")
		}
		b.sane("the manifest")
		c.End()
	})
}

func sha256Hex(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}

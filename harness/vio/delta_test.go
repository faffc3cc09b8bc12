//go:build go1.25

package vio

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
	"github.com/getsolus/ferryd/src/zverif/vxz"
)

// ent is one entry of a payload.
type ent struct {
	Path     string
	Kind     byte // tar type flag
	Data     string
	Link     string
	Mode     int64
	UID, GID int
	Slash    bool // directories: trailing slash in files.xml
	TarSlash bool
	Unlisted bool // a directory only the archive knows
	Xattr    string
	MTime    int64
}

func (e ent) hash() string {
	if e.Kind == tar.TypeDir {
		return ""
	}
	d := e.Data
	if e.Kind == tar.TypeSymlink {
		d = e.Link
	}
	s := sha1.Sum([]byte(d))
	return hex.EncodeToString(s[:])
}

func (e ent) String() string {
	return fmt.Sprintf("%c %q %dB %q mode %o", e.Kind, cutStr(e.Path, 60), len(e.Data), e.Link, e.Mode)
}

type build struct {
	Name, Ver, DistRel, Arch string
	Rel                      int
	Ents                     []ent
	Format                   tar.Format
	Comar                    []string
	RealXZ                   bool
	Deflate                  bool
}

var paths = func() []string {
	p := []string{"usr/bin/nano", "usr/bin/nanó", "usr/share/doc/a b.txt", "usr/share/nano/c.nanorc", "usr/share/nano/d", "usr/lib64/libnano.so.1", "usr/lib64/libnano.so", "etc/conf", "usr/share/empty", "var/x", "usr/bin/rnano", "usr/share/man/man1/nano.1.gz", "usr/lib64/libnano.a", "usr/lib/modules/x.ko", "usr/lib/python/x.pyc", "usr/share/日本語", "a"}
	p = append(p, "usr/share/"+strings.Repeat("long-directory/", 12)+"file", "usr/share/"+strings.Repeat("n", 120), strings.Repeat("deep/", 60)+strings.Repeat("m", 90))
	return p
}()

var contents = func() []string {
	c := []string{"", "one\n", "two\n", "three", strings.Repeat("big ", 9000), strings.Repeat("x", 511), strings.Repeat("y", 512), strings.Repeat("z", 513), "\x00\x01\x02", "one"}
	// the same sizes once more
	c = append(c, "six\n", strings.Repeat("gib ", 9000), strings.Repeat("u", 511), strings.Repeat("v", 512), strings.Repeat("w", 513), "\x00\x01\x03", "two")
	return c
}()

func genContent(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "fresh") == 0 {
		return fmt.Sprintf("content %d", rapid.IntRange(0, 30).Draw(t, "c"))
	}
	return contents[rapid.IntRange(0, len(contents)-1).Draw(t, "content")]
}

func genEnt(t *rapid.T, path string) ent {
	e := ent{Path: path, Kind: tar.TypeReg, Mode: []int64{0o644, 0o755, 0o4755, 0o600, 0o1777}[rapid.IntRange(0, 4).Draw(t, "mode")], MTime: 1700000000 + int64(rapid.IntRange(0, 9999).Draw(t, "mtime"))}
	if rapid.IntRange(0, 5).Draw(t, "owner") == 0 {
		e.UID, e.GID = 250, 70000
	}
	switch rapid.IntRange(0, 7).Draw(t, "kind") {
	case 0:
		e.Kind, e.Mode = tar.TypeDir, 0o755
		e.Slash, e.TarSlash = rapid.Bool().Draw(t, "slash"), rapid.Bool().Draw(t, "tarslash")
	case 1:
		// targets that are no content of any file
		e.Kind, e.Mode = tar.TypeSymlink, 0o777
		e.Link = []string{"nano->", "../lib/->x", "->" + strings.Repeat("l", 130), "->é"}[rapid.IntRange(0, 3).Draw(t, "target")]
	default:
		e.Data = genContent(t)
	}
	return e
}

func genEnts(t *rapid.T) []ent {
	n := rapid.IntRange(0, 8).Draw(t, "entries")
	idx := rapid.Permutation(seq(len(paths))).Draw(t, "paths")
	var es []ent
	for _, i := range idx[:n] {
		es = append(es, genEnt(t, paths[i]))
	}
	return addLinks(t, es)
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

// addLinks adds hard links and directories only the archive has.
func addLinks(t *rapid.T, es []ent) []ent {
	if rapid.IntRange(0, 2).Draw(t, "hard") == 0 {
		skip := rapid.IntRange(0, 3).Draw(t, "hardOf")
		for _, e := range es {
			if e.Kind == tar.TypeReg {
				if skip--; skip > 0 {
					continue
				}
				h := e
				h.Kind, h.Path, h.Link = tar.TypeLink, e.Path+".hard", e.Path
				es = append(es, h)
				break
			}
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "unlisted") == 0 {
		es = append([]ent{{Path: "usr", Kind: tar.TypeDir, Mode: 0o755, TarSlash: true, Unlisted: true, MTime: 1700000000}}, es...)
	}
	return es
}

// evolve makes the next build out of one.
func evolve(t *rapid.T, old []ent) []ent {
	var es []ent
	used := map[string]bool{}
	for _, e := range old {
		used[e.Path] = true
	}
	free := func() string {
		for _, i := range rapid.Permutation(seq(len(paths))).Draw(t, "free") {
			if !used[paths[i]] {
				used[paths[i]] = true
				return paths[i]
			}
		}
		return ""
	}
	for _, e := range old {
		if e.Kind == tar.TypeLink || e.Unlisted {
			continue
		}
		switch rapid.IntRange(0, 9).Draw(t, "fate") {
		case 0: // gone
			continue
		case 1: // moved
			if p := free(); p != "" {
				e.Path = p
			}
		case 2: // changed
			if e.Kind == tar.TypeReg {
				d := genContent(t)
				if len(e.Data) > 0 && rapid.Bool().Draw(t, "same size") {
					d = d[:min(len(d), len(e.Data))] + e.Data[min(len(d), len(e.Data)):]
				}
				e.Data = d
			}
		case 3: // of another kind
			e = genEnt(t, e.Path)
		case 4: // another mode
			e.Mode ^= 0o111
		case 5: // a copy elsewhere
			es = append(es, e)
			if p := free(); p != "" {
				e.Path = p
			} else {
				continue
			}
		}
		es = append(es, e)
	}
	for i := rapid.IntRange(0, 2).Draw(t, "new"); i > 0; i-- {
		if p := free(); p != "" {
			es = append(es, genEnt(t, p))
		}
	}
	if rapid.Bool().Draw(t, "shuffle") && len(es) > 1 {
		es = rapid.Permutation(es).Draw(t, "order")
	}
	return addLinks(t, es)
}

func (b *build) tar() []byte {
	var buf bytes.Buffer
	tw := tar.NewWriter(&buf)
	for _, e := range b.Ents {
		h := &tar.Header{Name: e.Path, Typeflag: e.Kind, Mode: e.Mode, Uid: e.UID, Gid: e.GID, Linkname: e.Link, ModTime: time.Unix(e.MTime, 0), Format: b.Format}
		if e.Kind == tar.TypeReg {
			h.Size = int64(len(e.Data))
		}
		if e.Kind == tar.TypeDir && e.TarSlash {
			h.Name += "/"
		}
		if err := tw.WriteHeader(h); err != nil {
			vh.Abort("tar: %v", err)
		}
		if h.Size > 0 {
			io.WriteString(tw, e.Data)
		}
	}
	tw.Close()
	return buf.Bytes()
}

// extraNames are names of further files of a package, besides its payload.
var extraNames = []string{"comar/s0.py", "comar/install.py", "comar/install.tar.sh", "install.log", "comar/metadata.xml", "comar/s1.py", "comar/files.xml", "Install.tar.xz"}

func (b *build) pkg() *vh.Pkg {
	fx := vh.Elem("Files")
	for _, e := range b.Ents {
		if e.Unlisted {
			continue
		}
		p := e.Path
		if e.Slash {
			p += "/"
		}
		n := vh.Elem("File", vh.TextElem("Path", p), vh.TextElem("Type", "data"))
		if e.Kind == tar.TypeReg {
			n.Add(vh.TextElem("Size", fmt.Sprint(len(e.Data))))
		}
		n.Add(vh.TextElem("Uid", fmt.Sprint(e.UID)), vh.TextElem("Gid", fmt.Sprint(e.GID)), vh.TextElem("Mode", fmt.Sprintf("0%o", e.Mode)))
		if h := e.hash(); h != "" {
			n.Add(vh.TextElem("Hash", h))
		}
		fx.Add(n)
	}
	raw := fx.String()
	if len(fx.Kids) == 0 {
		raw = "<Files></Files>"
	}
	sp := &vh.Spec{Name: b.Name, Source: "nano", DistRel: b.DistRel, Arch: b.Arch, Summary: "s " + b.Ver, Desc: "d", FilesRaw: &raw, NoInstall: true, Deflate: b.Deflate}
	sp.History = []vh.Upd{{Release: b.Rel, Version: b.Ver, Comment: "c", Name: "n"}}
	for i, c := range b.Comar {
		sp.Entries = append(sp.Entries, vh.ZipEntry{Name: extraNames[(b.Rel+i*3)%len(extraNames)], Data: []byte(c)})
	}
	x := vxz.XZ(b.tar())
	if b.RealXZ {
		c := exec.Command("xz", "-zc")
		c.Stdin = bytes.NewReader(b.tar())
		out, err := c.Output()
		if err != nil {
			vh.Abort("xz: %v", err)
		}
		x = out
	}
	sp.Entries = append(sp.Entries, vh.ZipEntry{Name: "install.tar.xz", Data: x})
	return sp.Build()
}

func genBuilds(t *rapid.T, n int) []*build {
	var bs []*build
	rel := 0
	es := genEnts(t)
	for i := 0; i < n; i++ {
		rel += rapid.IntRange(1, 9).Draw(t, "step")
		b := &build{Name: "nano", Ver: fmt.Sprintf("1.%d", rel), DistRel: "1", Arch: "x86_64", Rel: rel, Ents: es}
		b.Format = []tar.Format{tar.FormatGNU, tar.FormatPAX, tar.FormatGNU}[rapid.IntRange(0, 2).Draw(t, "format")]
		b.RealXZ = rapid.IntRange(0, 9).Draw(t, "realxz") == 0
		b.Deflate = rapid.Bool().Draw(t, "deflate")
		for k := rapid.IntRange(0, 2).Draw(t, "comar"); k > 0; k-- {
			b.Comar = append(b.Comar, fmt.Sprintf("script %d %s", rel, strings.Repeat("x", rapid.IntRange(0, 7).Draw(t, "len"))))
		}
		bs = append(bs, b)
		if rapid.IntRange(0, 5).Draw(t, "unrelated") == 0 {
			es = genEnts(t)
		} else {
			es = evolve(t, es)
		}
	}
	return bs
}

// plan says what a delta must hold: which entries of the newer payload, or
// that there must be none.
func plan(old, new *build) (want []ent, pointless bool) {
	have := map[string]bool{}
	for _, e := range old.Ents {
		if e.Kind != tar.TypeDir {
			have[e.hash()] = true
		}
	}
	listed := 0
	for _, e := range new.Ents {
		if e.Unlisted {
			continue
		}
		listed++
		if e.Kind == tar.TypeDir || !have[e.hash()] {
			want = append(want, e)
		}
	}
	return want, len(want) == listed
}

// same content in a link and a file is a known blind spot of the format
func ambiguous(bs []*build) bool {
	kind := map[string]bool{}
	for _, b := range bs {
		for _, e := range b.Ents {
			if e.Kind == tar.TypeDir {
				continue
			}
			l := e.Kind == tar.TypeSymlink
			if k, ok := kind[e.hash()]; ok && k != l {
				return true
			}
			kind[e.hash()] = l
		}
	}
	return false
}

func unxz(b []byte) ([]byte, error) {
	c := exec.Command("xz", "-dc")
	c.Stdin = bytes.NewReader(b)
	return c.Output()
}

// readTar lists an archive.
func readTar(b []byte) ([]ent, error) {
	var es []ent
	tr := tar.NewReader(bytes.NewReader(b))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return es, nil
		}
		if err != nil {
			return es, err
		}
		d, err := io.ReadAll(tr)
		if err != nil {
			return es, err
		}
		es = append(es, ent{Path: strings.TrimSuffix(h.Name, "/"), Kind: h.Typeflag, Data: string(d), Link: h.Linkname, Mode: h.Mode, UID: h.Uid, GID: h.Gid, MTime: h.ModTime.Unix()})
	}
}

func (e ent) full() string {
	d := e.Data
	if e.Kind == tar.TypeLink {
		d = ""
	}
	s := sha1.Sum([]byte(d))
	return fmt.Sprintf("%c %q %dB %x %q mode %o %d:%d at %d", e.Kind, e.Path, len(d), s[:4], e.Link, e.Mode, e.UID, e.GID, e.MTime)
}

// checkDeltaFile compares a delta with the two builds it is between.
func checkDeltaFile(c *vh.Case, path string, old, new *build, newPkg *vh.Pkg) {
	const tags = "C19"
	b, err := os.ReadFile(path)
	if err != nil {
		c.Fail(tags, "the delta was reported and is not there: %v", err)
		return
	}
	zr, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		c.Fail(tags, "the delta is no archive: %v", err)
		return
	}
	nr, _ := zip.NewReader(bytes.NewReader(newPkg.Bytes), int64(len(newPkg.Bytes)))
	read := func(f *zip.File) string {
		r, err := f.Open()
		if err != nil {
			return "unreadable: " + err.Error()
		}
		defer r.Close()
		d, err := io.ReadAll(r)
		if err != nil {
			return "unreadable: " + err.Error()
		}
		return string(d)
	}
	got := map[string]string{}
	for _, f := range zr.File {
		if _, dup := got[f.Name]; dup {
			c.Fail(tags, "the delta has %q twice", f.Name)
		}
		got[f.Name] = read(f)
	}
	for _, f := range nr.File {
		if f.Name == "install.tar.xz" {
			continue
		}
		if g, ok := got[f.Name]; !ok || g != read(f) {
			c.Fail(tags, "the delta has not the %q of the newer build (there: %v, %d bytes)", f.Name, ok, len(g))
		}
		delete(got, f.Name)
	}
	want, _ := plan(old, new)
	ball, ok := got["install.tar.xz"]
	delete(got, "install.tar.xz")
	for _, n := range vh.SortedKeys(got) {
		c.Fail(tags, "the delta has an entry %q the newer build has not", n)
	}
	var es []ent
	if ok {
		plain, err := unxz([]byte(ball))
		if err != nil {
			c.Fail(tags, "the payload of the delta does not decompress: %v", err)
			return
		}
		if es, err = readTar(plain); err != nil {
			c.Fail(tags, "the payload of the delta is no archive: %v", err)
			return
		}
	}
	if len(want) > 0 && !ok {
		c.Fail(tags, "the delta has no payload; %d entries changed", len(want))
		return
	}
	var g, w []string
	for _, e := range es {
		g = append(g, e.full())
	}
	for _, e := range want {
		w = append(w, e.full())
	}
	// apply: what the delta lacks must be in the older build
	have := map[string]ent{}
	for _, e := range old.Ents {
		if e.Kind != tar.TypeDir {
			have[e.hash()] = e
		}
	}
	inDelta := map[string]bool{}
	for _, e := range es {
		inDelta[e.Path] = true
	}
	for _, e := range new.Ents {
		if e.Unlisted || inDelta[e.Path] || e.Kind == tar.TypeDir {
			continue
		}
		if o, ok := have[e.hash()]; !ok || o.Kind == tar.TypeReg && o.Data != e.Data {
			c.Fail(tags, "the older build and the delta together lack %s", e)
		}
	}
	if strings.Join(g, "\n") != strings.Join(w, "\n") {
		sort.Strings(g)
		sort.Strings(w)
		c.Fail(tags, "the payload of the delta is\n%s\nwant\n%s", strings.Join(g, "\n"), strings.Join(w, "\n"))
	}
}

func describe(c *vh.Case, bs []*build) {
	for _, b := range bs {
		var l []string
		for _, e := range b.Ents {
			l = append(l, e.String())
		}
		c.Op("%s-%s-%d-%s-%s: %s", b.Name, b.Ver, b.Rel, b.DistRel, b.Arch, strings.Join(l, "; "))
	}
}

// litter leaves what an interrupted production leaves.
func litter(t *rapid.T, dir string) {
	os.MkdirAll(dir, 0o755)
	for _, f := range []string{"install.tar", "install.tar.xz", "delta-eopkg.install.tar", "delta-eopkg.install.tar.xz", "nano-1-2-1-x86_64.delta.eopkg"} {
		if rapid.Bool().Draw(t, "left") {
			os.WriteFile(filepath.Join(dir, f), []byte(strings.Repeat("half", rapid.IntRange(0, 5000).Draw(t, "size"))), 0o644)
		}
	}
}

// TestDelta is C19 for single productions.
func TestDelta(t *testing.T) {
	vh.SetRule("pairs of builds whose payloads share, move, copy, change and drop files, directories, links and hard links of all kinds of names, sizes and modes; the produced delta is unpacked and compared with what changed, and applied; non-trivial when a delta was produced that carries a part of the payload")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		bs := genBuilds(rt, 2)
		old, new := bs[0], bs[1]
		mismatch := false
		if rapid.IntRange(0, 5).Draw(rt, "mismatch") == 0 {
			switch rapid.IntRange(0, 4).Draw(rt, "how") {
			case 0:
				old.Rel, new.Rel = new.Rel, old.Rel
			case 1:
				old.Rel = new.Rel
			case 2:
				old.Arch = "i686"
			case 3:
				old.DistRel = "2"
			case 4:
				old.Name = "nano-x"
			}
			mismatch = true
		}
		describe(c, bs)
		if ambiguous(bs) {
			c.End()
			return
		}
		po, pn := old.pkg(), new.pkg()
		in, tmp, out := filepath.Join(c.Dir(), "in"), filepath.Join(c.Dir(), "tmp"), filepath.Join(c.Dir(), "out")
		os.MkdirAll(tmp, 0o755)
		os.MkdirAll(out, 0o755)
		a, b := po.WriteTo(filepath.Join(in, "a")), pn.WriteTo(filepath.Join(in, "b"))
		if rapid.IntRange(0, 3).Draw(rt, "litter") == 0 {
			litter(rt, filepath.Join(tmp, fmt.Sprintf("nano-%s-%s-%d-%d", new.Ver, new.Arch, old.Rel, new.Rel)))
			c.Op("left-overs of an interrupted production")
			c.Label("left-overs")
		}
		want, pointless := plan(old, new)
		name := fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg", new.Name, old.Rel, new.Rel, new.DistRel, new.Arch)
		target := filepath.Join(out, name)
		direct := rapid.Bool().Draw(rt, "direct")
		preTree := vh.Tree(in)
		o := vh.Guard(func() error {
			if !direct {
				return core.ProduceDelta(tmp, a, b, target)
			}
			d, err := libeopkg.NewDeltaProducer(tmp, a, b)
			if err != nil {
				return err
			}
			defer d.Close()
			p, err := d.Commit()
			if err != nil {
				return err
			}
			if filepath.Base(p) != name {
				c.Fail("C19", "the delta is called %q, not %q", filepath.Base(p), name)
			}
			return os.Rename(p, target)
		})
		switch {
		case o.Broken() != "":
			c.Fail("C19", "producing the delta: %s", o.Broken())
		case mismatch:
			c.Label("mismatch")
			if o.Err != libeopkg.ErrMismatchedDelta {
				c.Fail("C19", "a delta between unrelated builds ends with %v", o.Err)
			}
		case pointless:
			c.Label("pointless")
			if o.Err != libeopkg.ErrDeltaPointless {
				c.Fail("C19", "a delta that saves nothing ends with %v", o.Err)
			}
		case o.Err != nil:
			c.Fail("C19", "producing the delta fails: %v", o.Err)
		default:
			checkDeltaFile(c, target, old, new, pn)
			if len(want) > 0 {
				c.Nontrivial()
				c.Label("partial")
			} else {
				c.Label("nothing changed")
			}
		}
		if o.Broken() == "" {
			c.CheckHeld("producing the delta")
		}
		if o.Err != nil {
			if _, err := os.Lstat(target); err == nil {
				c.Fail("C19", "no delta was produced (%v), and there is one", o.Err)
			}
		}
		if es, _ := os.ReadDir(tmp); len(es) > 0 && !mismatch {
			c.Fail("C19,C46", "the production leaves %d entries in its work area: %v", len(es), vh.SortedKeys(vh.Tree(tmp)))
		}
		if d := vh.DiffTree(preTree, vh.Tree(in)); d != "" {
			c.Fail("C19,C02", "the production changes its inputs: %s", d)
		}
		c.End()
	})
}

// TestDeltaJob is C19 and C20 for the jobs that produce the deltas of a name.
func TestDeltaJob(t *testing.T) {
	vh.SetRule("repositories with 2-4 builds of a name; the delta job is run (again, in a second repository, after new builds) and the deltas it leaves are compared with those that must exist, each unpacked; non-trivial when a job produced a delta with a payload")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		bs := genBuilds(rt, rapid.IntRange(2, 4).Draw(rt, "builds"))
		if rapid.IntRange(0, 3).Draw(rt, "odd") == 0 {
			bs[0].Arch = "i686" // never a base for a delta
		}
		describe(c, bs)
		if ambiguous(bs) {
			c.End()
			return
		}
		base, in := filepath.Join(c.Dir(), "base"), filepath.Join(c.Dir(), "in")
		os.MkdirAll(base, 0o755)
		pk := map[*build]*vh.Pkg{}
		for _, b := range bs {
			pk[b] = b.pkg()
		}
		var mg *core.Manager
		defer func() {
			if mg != nil {
				mg.Close()
			}
		}()
		must := func(what string, o vh.Outcome) bool {
			if o.Err != nil || o.Broken() != "" {
				c.Fail("C19,C20", "%s: %v %s", what, o.Err, o.Broken())
				return false
			}
			c.CheckHeld(what)
			return true
		}
		if !must("opening", vh.Guard(func() (err error) {
			if mg, err = core.NewManager(base); err != nil {
				return err
			}
			if err = mg.CreateRepo("r"); err != nil {
				return err
			}
			return mg.CreateRepo("s")
		})) {
			return
		}
		held := map[string][]*build{}
		produced := map[string]*build{} // delta id -> older build
		newer := map[string]*build{}
		listed := map[string]map[string]bool{"r": {}, "s": {}}
		littered := false
		steps := rapid.IntRange(2, 6).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			repo := []string{"r", "r", "s"}[rapid.IntRange(0, 2).Draw(rt, "repo")]
			if i == 0 || rapid.IntRange(0, 2).Draw(rt, "what") == 0 {
				var ps []string
				n := rapid.IntRange(1, len(bs)).Draw(rt, "upto")
				if i == 0 {
					repo, n = "r", max(n, 2)
				}
				for _, b := range bs[:n] {
					if !containsB(held[repo], b) {
						held[repo] = append(held[repo], b)
						ps = append(ps, pk[b].WriteTo(in))
					}
				}
				if len(ps) == 0 {
					continue
				}
				c.Op("import into %s: %d builds", repo, len(ps))
				if !must("importing", vh.Guard(func() error { return mg.AddPackages(repo, ps, false) })) {
					return
				}
				continue
			}
			if len(held[repo]) == 0 {
				continue
			}
			index := rapid.Bool().Draw(rt, "index")
			if rapid.IntRange(0, 5).Draw(rt, "litter") == 0 {
				for _, o := range held[repo] {
					for _, n := range held[repo] {
						if o.Rel < n.Rel {
							litter(rt, filepath.Join(base, "deltaBuilds", repo, fmt.Sprintf("nano-%s-%s-%d-%d", n.Ver, n.Arch, o.Rel, n.Rel)))
						}
					}
				}
				littered = true
				c.Label("left-overs")
				c.Op("left-overs in the delta work area of %s", repo)
			}
			if rapid.IntRange(0, 3).Draw(rt, "staged") == 0 {
				// an attempt that was interrupted when the delta was made
				metas := map[string]*libeopkg.MetaPackage{}
				must("listing", vh.Guard(func() error {
					ms, err := mg.GetPackages(repo, "nano")
					for _, m := range ms {
						metas[m.GetID()] = m
					}
					return err
				}))
				for _, o := range held[repo] {
					for _, n := range held[repo] {
						if o.Rel >= n.Rel || metas[pk[o].ID] == nil || metas[pk[n].ID] == nil || rapid.Bool().Draw(rt, "skip") {
							continue
						}
						var at string
						out := vh.Guard(func() (err error) {
							at, err = mg.CreateDelta(repo, metas[pk[o].ID], metas[pk[n].ID])
							return err
						})
						if out.Broken() != "" {
							c.Fail("C19", "making the delta of %s and %s: %s", pk[o].ID, pk[n].ID, out.Broken())
						}
						if out.Err == nil {
							c.Op("left staged: %s", filepath.Base(at))
							c.Label("left staged")
							littered = true
							checkDeltaFile(c, at, o, n, pk[n])
						}
					}
				}
			}
			c.Op("delta job on %s (index %v)", repo, index)
			work := map[string]bool{}
			for _, d := range []string{"deltaBuilds", "deltaStaging"} {
				for p := range vh.Tree(filepath.Join(base, d, repo)) {
					work[d+"/"+p] = true
				}
			}
			if !must("the delta job", vh.Guard(func() error {
				h, err := jobs.NewDeltaJobHandler(jobs.NewDeltaJob(repo, "nano"), index)
				if err != nil {
					return err
				}
				return h.Execute(nil, mg)
			})) {
				return
			}
			for _, d := range []string{"deltaBuilds", "deltaStaging"} {
				for p := range vh.Tree(filepath.Join(base, d, repo)) {
					if p != "." && !work[d+"/"+p] {
						c.Fail("C46", "the delta job leaves %s/%s/%s", d, repo, p)
					}
				}
			}
			before := len(listed[repo])
			tip := held[repo][0]
			for _, b := range held[repo] {
				if b.Rel > tip.Rel {
					tip = b
				}
			}
			for _, b := range held[repo] {
				if b == tip || b.Arch != tip.Arch {
					continue
				}
				id := fmt.Sprintf("nano-%d-%d-1-x86_64.delta.eopkg", b.Rel, tip.Rel)
				want, pointless := plan(b, tip)
				failed := mg.GetDeltaFailed(id)
				if failed != pointless {
					c.Fail("C19,C20", "the delta %s saves nothing: %v; recorded as failed: %v", id, pointless, failed)
				}
				if pointless {
					c.Label("pointless")
					continue
				}
				produced[id], newer[id] = b, tip
				listed[repo][id] = true
				if len(want) > 0 {
					c.Nontrivial()
				}
			}
			// exactly these are listed
			var got []string
			r, err := mg.GetRepo(repo)
			if err != nil {
				c.Fail("C19", "%v", err)
				return
			}
			entry, err := r.GetEntry(mg.VerifDB(), "nano")
			if err != nil {
				c.Fail("C19", "%v", err)
				return
			}
			got = append(got, vh.As[vh.StoredEntry](entry).Deltas...)
			sort.Strings(got)
			w := vh.SortedKeys(listed[repo])
			if strings.Join(got, " ") != strings.Join(w, " ") {
				c.Fail("C19,C20", "after the delta job %s lists the deltas %v, want %v", repo, got, w)
			}
			if index && len(w) > before {
				c.Label("indexed with new deltas")
				b, err := os.ReadFile(filepath.Join(base, "repo", repo, "eopkg-index.xml"))
				if err != nil {
					c.Fail("C04,C20", "after the delta job on %s: %v", repo, err)
				}
				for _, id := range w {
					if has := strings.Contains(string(b), id); has != (newer[id] == tip) {
						c.Fail("C04,C20", "after the delta job, which added deltas to %s and had to index it, the index of %s lists %s: %v; it leads to the published build: %v", repo, repo, id, has, newer[id] == tip)
					}
				}
			}
			for _, id := range w {
				pe, err := mg.GetPoolEntry(id)
				if err != nil || pe == nil {
					c.Fail("C19,C20", "the pool does not know %s: %v", id, err)
					continue
				}
				checkDeltaFile(c, filepath.Join(base, "repo", repo, pe.PackageURI), produced[id], newer[id], pk[newer[id]])
				checkDeltaFile(c, filepath.Join(base, "pool", pe.PackageURI), produced[id], newer[id], pk[newer[id]])
			}
			items, _ := mg.GetPoolItems()
			for _, it := range items {
				d := vh.As[vh.StoredItem](it).Delta
				if d == nil {
					continue
				}
				o, n := produced[it.Name], newer[it.Name]
				if o == nil || d.FromID != pk[o].ID || d.ToID != pk[n].ID || d.FromRelease != o.Rel || d.ToRelease != n.Rel {
					c.Fail("C19,C20", "the delta %s is recorded as %+v", it.Name, *d)
				}
			}
			for _, d := range []string{"deltaBuilds", "deltaStaging"} {
				for _, k := range vh.SortedKeys(vh.Tree(filepath.Join(base, d, repo))) {
					if k != "." && !littered {
						c.Fail("C19", "the delta job leaves %s in %s", k, d)
					}
				}
			}
		}
		c.End()
	})
}

func containsB(bs []*build, b *build) bool {
	for _, x := range bs {
		if x == b {
			return true
		}
	}
	return false
}

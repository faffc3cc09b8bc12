//go:build go1.25

package vcore

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

type mapping struct {
	From, To string
}

// World is one manager, everything ever offered to it, and the oracles.
type World struct {
	*vh.Case
	t      *rapid.T
	base   string
	inbox  string
	m      *core.Manager
	pkgs   map[string]*vh.Pkg
	deltas map[string]mapping
	marked map[string]bool
	trees  map[string]map[string]string
	dead   bool // a call never came back: nothing more can be done
	srcs   []source
	names  []string // repository names in play
	step   int
	cur    string // properties the current step is about
	extra  string // further properties every step is about
	indent string
	mon    *monitor                                               // watches or disturbs the next step
	hidden bool                                                   // the step before reported an error that is not its own
	around func(name string, e expect, f func() error) vh.Outcome // does a step
	loss   *rmSet                                                 // what an interrupted step was removing
	staged []staged                                               // deltas made and not yet added
	redo   bool                                                   // steps repeat what was cut short
	umask  int
	later  string                 // a repository whose assets are there before it is
	making string                 // the repository a delta is being made for
	tmp    string                 // where temporary files go
	stray  bool                   // imports may find files where they put theirs
	modes  map[string]os.FileMode // of the files offered first
	last   *State
}

type source struct {
	Name  string
	Names []string
}

var sourceTemplates = []source{
	{"nano", []string{"nano", "nano-dbginfo", "nano-devel", "nano-dbginfo-tools"}},
	{"libfoo", []string{"libfoo", "libfoo-devel", "libfoo-dbginfo"}},
	{"lib", []string{"lib", "lib-dbginfo"}},
	{"a", []string{"a", "a-b"}},
	{"Zlib", []string{"zlib", "Zlib"}},
	{"perl", []string{"perl", "perl-dbginfo"}},
	{"perl-foo", []string{"perl-foo", "perl-foo-dbginfo"}},
	{"0ad", []string{"0ad", "0ad-data"}},
	{"nano-x", []string{"nano-x"}},
	{"libX11", []string{"libX11", "libX11-32bit"}},
	{"zlib", []string{"zlib-ng"}},
	{"gtk", []string{"gtk-101", "gtk-100", "gtk-20-99"}},
	{"package-kit", []string{"package", "package-kit"}},
	{"perl-core", []string{"perl"}},
	{"libfoo2", []string{"libfoo", "libfoo-utils"}},
	{"debugging", []string{"nano-dbginfo", "perl-dbginfo"}},
}

var repoNames = []string{"solus", "solus-packages", "solus-pack", "sol", "unstable", "un-stable", "shannon 2", "repo", "Solus", "pool", "größe", "ünstable", "sol ", " repo"}

var alike = [][]string{{"sol", "sol "}, {" repo", "repo"}, {"solus", "Solus"}, {"solus", "solus-packages"}, {"sol", "solus"}, {"unstable", "un-stable"}, {"ünstable", "unstable"}}

var releases = []int{1, 2, 3, 8, 9, 10, 11, 19, 20, 99, 100, 101, 70001, 250001, 2147483647}

func newWorld(t *rapid.T) *World {
	w := &World{Case: vh.Begin(t), t: t, pkgs: map[string]*vh.Pkg{}, deltas: map[string]mapping{}, marked: map[string]bool{}, trees: map[string]map[string]string{}}
	if vh.Mine("C45") {
		w.umask = []int{0o022, 0o002, 0}[mix(rapid.IntRange(0, 1023).Draw(t, "umask"), 3)]
		syscall.Umask(w.umask)
		w.modes = map[string]os.FileMode{}
		w.Op("umask %03o", w.umask)
	}
	if vh.Mine("C46") {
		w.tmp = filepath.Join(w.Dir(), "tmp")
		os.Setenv("TMPDIR", w.tmp)
		if err := os.Mkdir(w.tmp, 0o755); err != nil {
			vh.Abort("%v", err)
		}
	}
	w.base = filepath.Join(w.Dir(), "base")
	w.inbox = filepath.Join(w.Dir(), "inbox")
	for _, d := range []string{w.base, w.inbox} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			vh.Abort("%v", err)
		}
	}
	w.open("*")
	w.last = w.observe()
	w.trees = w.snapTrees()
	return w
}

func (w *World) genUniverse() {
	n := rapid.IntRange(1, 4).Draw(w.t, "nsources")
	idx := rapid.Permutation(seq(len(sourceTemplates))).Draw(w.t, "sources")
	for _, i := range idx[:n] {
		w.srcs = append(w.srcs, sourceTemplates[i])
	}
	k := rapid.IntRange(2, 5).Draw(w.t, "nrepos")
	idx = rapid.Permutation(seq(len(repoNames))).Draw(w.t, "repos")
	for _, i := range idx[:k] {
		w.names = append(w.names, repoNames[i])
	}
	// often two that are easily taken for each other
	if rapid.Bool().Draw(w.t, "alike") {
		p := slices.Clone(alike[rapid.IntRange(0, len(alike)-1).Draw(w.t, "pair")])
		for _, n := range w.names[1:] {
			if n != p[0] && n != p[1] {
				p = append(p, n)
			}
		}
		w.names = p
	}
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func (w *World) mkPkg(s source, name string, rel int, variant string) *vh.Pkg {
	sp := &vh.Spec{Name: name, Source: s.Name, DistRel: "1", Arch: "x86_64", Summary: name + " tool", Desc: "About " + name + " & <co>\nline two"}
	// versions go up and down with the releases
	vrel := rel
	if rel == 3 || rel == 10 || rel == 101 {
		vrel-- // or not at all
	}
	ver := fmt.Sprintf("%d.%d%s", 1+vrel*7%10, vrel, variant)
	switch vrel % 5 {
	case 1: // longer and shorter
		ver = "2023.11.20." + ver
	case 4:
		ver = fmt.Sprintf("%d%s", 1+vrel*7%10, variant)
	}
	switch s.Name {
	case "perl-core", "libfoo2", "debugging":
		ver += "m" // packages that moved here from another source
	}
	sp.History = []vh.Upd{{Release: rel, Version: ver, Comment: "Update to " + ver, Name: "J"}}
	if rel > 1 {
		sp.History = append(sp.History, vh.Upd{Release: rel - 1, Version: "0.9", Comment: "older", Name: "K", Type: "security"})
	}
	if rel > 9 {
		sp.History = append(sp.History, vh.Upd{Release: 1, Version: "0.1", Comment: "first", Name: "K"})
	}
	if rel%2 == 0 {
		sp.Extra = append(sp.Extra, vh.TextElem("PartOf", "system.utils"), vh.Elem("RuntimeDependencies", vh.TextElem("Dependency", "glibc").With("releaseFrom", "3"), vh.TextElem("Dependency", "nano")))
	}
	id := sp.FileName()
	if p, ok := w.pkgs[id]; ok {
		return p
	}
	sp.Filler = strings.Repeat(id+"\n", 1+rel%7)
	sp.Files = []vh.FileSpec{{Path: "usr/share/" + name + "/same", Data: "same of " + name}, {Path: "usr/share/" + name + "/own", Data: "own of " + id}}
	p := sp.Build()
	w.pkgs[id] = p
	return p
}

func (w *World) open(tags string) {
	o := vh.Guard(func() error {
		m, err := core.NewManager(w.base)
		w.m = m
		return err
	})
	if o.Broken() != "" || o.Err != nil {
		w.dead = true
		w.Fail("C27,C28,C29,"+tags, "the repository manager does not open: %v %s", o.Err, o.Broken())
	}
}

func (w *World) close() {
	if w.m != nil && !w.dead {
		w.m.Close()
	}
	w.m = nil
}

// Entry is what a repository says about one package name.
type Entry struct {
	Avail     []string
	Published string
	Deltas    []string
}

// PoolSt is what the pool says about one file.
type PoolSt struct {
	Ref            uint64
	Delta          bool
	From, To       string
	FromRel, ToRel int
	URI, Hash      string
	Size           int64
	Name, Source   string
	Rel            int
}

// State is everything the manager says.
type State struct {
	Repos map[string]map[string]Entry
	Pool  map[string]PoolSt
}

// observe reads the whole state through the manager.
func (w *World) observe() *State {
	st := &State{Repos: map[string]map[string]Entry{}, Pool: map[string]PoolSt{}}
	if w.dead {
		return st
	}
	const tags = "C01,C02,C17,C27,C28,C29,C16"
	o := vh.Guard(func() error {
		repos, err := w.m.GetRepos()
		if err != nil {
			return fmt.Errorf("listing repositories: %w", err)
		}
		for _, r := range repos {
			if _, dup := st.Repos[r.ID]; dup {
				return fmt.Errorf("repository %q is listed twice", r.ID)
			}
			st.Repos[r.ID] = map[string]Entry{}
		}
		items, err := w.m.GetPoolItems()
		if err != nil {
			return fmt.Errorf("listing the pool: %w", err)
		}
		for _, e := range items {
			if _, dup := st.Pool[e.Name]; dup {
				return fmt.Errorf("pool item %q is listed twice", e.Name)
			}
			x := vh.As[vh.StoredItem](e)
			p := PoolSt{Ref: x.RefCount, URI: x.Meta.PackageURI, Hash: x.Meta.PackageHash, Size: x.Meta.PackageSize, Name: x.Meta.Name, Source: x.Meta.Source.Name, Rel: e.Meta.GetRelease()}
			if x.Delta != nil {
				p.Delta, p.From, p.To, p.FromRel, p.ToRel = true, x.Delta.FromID, x.Delta.ToID, x.Delta.FromRelease, x.Delta.ToRelease
			}
			st.Pool[e.Name] = p
		}
		for id := range st.Repos {
			names, err := w.m.GetPackageNames(id)
			if err != nil {
				return fmt.Errorf("listing %q: %w", id, err)
			}
			repo, err := w.m.GetRepo(id)
			if err != nil {
				return fmt.Errorf("opening %q: %w", id, err)
			}
			for _, n := range names {
				if _, dup := st.Repos[id][n]; dup {
					return fmt.Errorf("%q lists the name %q twice", id, n)
				}
				entry, err := repo.GetEntry(w.m.VerifDB(), n)
				if err != nil {
					return fmt.Errorf("%q lists the name %q, which it does not have: %w", id, n, err)
				}
				e := vh.As[vh.StoredEntry](entry)
				st.Repos[id][n] = Entry{Avail: append([]string(nil), e.Available...), Published: e.Published, Deltas: append([]string(nil), e.Deltas...)}
				metas, err := w.m.GetPackages(id, n)
				if err != nil {
					return fmt.Errorf("%q cannot give the packages of %q: %w", id, n, err)
				}
				got := map[string]bool{}
				for _, m := range metas {
					got[m.GetID()] = true
				}
				if len(metas) != len(e.Available) {
					return fmt.Errorf("%q has %d packages of %q available but gives %d", id, len(e.Available), n, len(metas))
				}
				for _, a := range e.Available {
					if !got[a] {
						return fmt.Errorf("%q lists %q but does not give it", id, a)
					}
				}
			}
		}
		return nil
	})
	if b := o.Broken(); b != "" {
		w.dead = true
		w.Fail(tags, "reading the state: %s", b)
	} else if o.Err != nil {
		w.dead = true
		w.Fail(tags, "reading the state: %v", o.Err)
	}
	return st
}

func (w *World) release(id string) int {
	if p, ok := w.pkgs[id]; ok {
		return p.Release
	}
	return -1
}

func setOf(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func sameSet(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	m := setOf(a)
	if len(m) != len(a) {
		return false
	}
	for _, x := range b {
		if !m[x] {
			return false
		}
	}
	return len(setOf(b)) == len(b)
}

// diffRepo compares a repository with what it should hold ("" when equal).
func diffRepo(got, want map[string]Entry) string {
	var d []string
	for _, n := range vh.SortedKeys(want) {
		g, ok := got[n]
		if !ok {
			d = append(d, fmt.Sprintf("%s is missing, want %v", n, want[n].Avail))
			continue
		}
		if !sameSet(g.Avail, want[n].Avail) {
			d = append(d, fmt.Sprintf("%s has %v, want %v", n, g.Avail, want[n].Avail))
		}
		if !sameSet(g.Deltas, want[n].Deltas) {
			d = append(d, fmt.Sprintf("%s has deltas %v, want %v", n, g.Deltas, want[n].Deltas))
		}
	}
	for _, n := range vh.SortedKeys(got) {
		if _, ok := want[n]; !ok {
			d = append(d, fmt.Sprintf("%s is there with %v and should not be", n, got[n].Avail))
		}
	}
	return strings.Join(d, "; ")
}

func copyRepo(r map[string]Entry) map[string]Entry {
	c := map[string]Entry{}
	for n, e := range r {
		c[n] = Entry{Avail: append([]string(nil), e.Avail...), Published: e.Published, Deltas: append([]string(nil), e.Deltas...)}
	}
	return c
}

func addAvail(r map[string]Entry, name, id string) {
	e := r[name]
	for _, a := range e.Avail {
		if a == id {
			return
		}
	}
	e.Avail = append(e.Avail, id)
	r[name] = e
}

// dropIDs removes packages and the deltas that lead from or to them.
func (w *World) dropIDs(r map[string]Entry, gone map[string]bool) {
	for n, e := range r {
		var a, d []string
		for _, id := range e.Avail {
			if !gone[id] {
				a = append(a, id)
			}
		}
		for _, id := range e.Deltas {
			m := w.deltas[id]
			if !gone[m.From] && !gone[m.To] {
				d = append(d, id)
			}
		}
		if len(a) == 0 {
			delete(r, n)
			continue
		}
		e.Avail, e.Deltas = a, d
		r[n] = e
	}
}

func (w *World) repoDir(r string) string  { return filepath.Join(w.base, "repo", r) }
func (w *World) assetDir(r string) string { return filepath.Join(w.base, "assets", r) }

// snapTrees remembers the files of every repository.
func (w *World) snapTrees() map[string]map[string]string {
	out := map[string]map[string]string{}
	for _, sub := range []string{"repo", "assets"} {
		ents, _ := os.ReadDir(filepath.Join(w.base, sub))
		for _, e := range ents {
			t := vh.Tree(filepath.Join(w.base, sub, e.Name()))
			if out[e.Name()] == nil {
				out[e.Name()] = map[string]string{}
			}
			for k, v := range t {
				out[e.Name()][sub+"/"+k] = v
			}
		}
	}
	return out
}

// invariants holds after every step, whatever happened. leaky relaxes what a
// crash or a failing disk may leave behind (space, never contents).
func (w *World) invariants(st *State, leaky bool) {
	if w.dead {
		return
	}
	w.checkModes(st)
	if !leaky {
		w.checkTidy(st)
	}
	refs := map[string]uint64{}
	for _, r := range vh.SortedKeys(st.Repos) {
		listed := map[string]bool{}
		for _, n := range vh.SortedKeys(st.Repos[r]) {
			e := st.Repos[r][n]
			if len(e.Avail) == 0 {
				w.Fail("C17,C11,C13,C14,C28", "%q lists the name %q with no package", r, n)
			}
			if len(setOf(e.Avail)) != len(e.Avail) || len(setOf(e.Deltas)) != len(e.Deltas) {
				w.Fail("C17,C20,C28", "%q lists something twice for %q: %v %v", r, n, e.Avail, e.Deltas)
			}
			// the tip
			in := false
			max := -1
			for _, id := range e.Avail {
				if id == e.Published {
					in = true
				}
				if rel := w.release(id); rel > max {
					max = rel
				}
				p, known := w.pkgs[id]
				if !known {
					w.Fail("C17,C02", "%q lists %q, which nobody imported", r, id)
					continue
				}
				if p.Name != n {
					w.Fail("C17,C16", "%q lists %q under the name %q", r, id, n)
				}
			}
			if !in || w.release(e.Published) != max {
				w.Fail("C03"+w.also("C09,C10,C11,C12,C17"), "in %q the tip of %q is %q (release %d); available %v have highest release %d", r, n, e.Published, w.release(e.Published), e.Avail, max)
			}
			for _, id := range append(append([]string{}, e.Avail...), e.Deltas...) {
				refs[id]++
				listed[id] = true
				w.checkFile(st, r, id)
			}
			for _, d := range e.Deltas {
				if _, ok := w.deltas[d]; !ok {
					w.Fail("C20", "%q lists the delta %q, which nobody added", r, d)
				}
			}
		}
		// nothing else lies around
		filepath.Walk(w.repoDir(r), func(p string, fi os.FileInfo, err error) error {
			if err != nil || !fi.Mode().IsRegular() {
				return nil
			}
			b := filepath.Base(p)
			if strings.HasSuffix(b, ".eopkg") && !listed[b] && !leaky {
				w.Fail("C02"+w.also("C11,C13,C14,C15"), "%q still has the file of %q, which it does not list", r, b)
			}
			return nil
		})
	}
	for _, id := range vh.SortedKeys(st.Pool) {
		p := st.Pool[id]
		if p.Ref != refs[id] {
			w.Fail("C01,C28,C29"+w.also("C15,C17,C20"), "%q is listed by %d repositories and counted %d times", id, refs[id], p.Ref)
		}
		if refs[id] == 0 {
			w.Fail("C01"+w.also("C15,C20"), "%q is in the pool and in no repository", id)
		}
	}
	for _, id := range vh.SortedKeys(refs) {
		if _, ok := st.Pool[id]; !ok {
			w.Fail("C01,C02,C28,C29"+w.also("C09,C10,C12,C15,C17,C20"), "%q is in a repository and not in the pool", id)
		}
	}
	seen := map[string]bool{}
	filepath.Walk(filepath.Join(w.base, "pool"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		b := filepath.Base(p)
		if _, ok := st.Pool[b]; !ok && !leaky {
			w.Fail("C01"+w.also("C15"), "the pool still stores %q on disk", b)
		}
		seen[b] = true
		return nil
	})
	for _, id := range vh.SortedKeys(st.Pool) {
		if !seen[id] && !w.beingRemoved("", id, refs[id]) {
			w.Fail("C01,C02,C28,C29"+w.also("C09,C10,C12,C15,C17,C20"), "the pool lists %q and does not store it", id)
		}
	}
	for _, d := range vh.SortedKeys(w.marked) {
		ok := false
		o := vh.Guard(func() error { ok = w.m.GetDeltaFailed(d); return nil })
		if o.Broken() != "" || !ok {
			w.Fail("C20,C27", "the failed attempt at delta %q is forgotten %s", d, o.Broken())
		}
	}
}

// checkTidy looks for what is not needed anymore.
func (w *World) checkTidy(st *State) {
	if w.tmp == "" {
		return
	}
	may := map[string]bool{".": true, "incoming": true, "repo": true, "pool": true, "assets": true, "deltaBuilds": true, "deltaStaging": true}
	add := func(p string) {
		for ; p != "."; p = filepath.Dir(p) {
			may[p] = true
		}
	}
	for r, es := range st.Repos {
		for _, d := range repoDirs {
			add(filepath.Join(d, r))
		}
		for _, f := range []string{"", ".xz", ".zst"} {
			for _, s := range []string{"", ".sha1sum", ".sha256sum"} {
				add(filepath.Join("repo", r, "eopkg-index.xml"+f+s))
			}
		}
		for _, e := range es {
			for _, id := range append(append([]string{}, e.Avail...), e.Deltas...) {
				add(filepath.Join("repo", r, st.Pool[id].URI))
			}
		}
		filepath.Walk(w.assetDir(r), func(p string, fi os.FileInfo, err error) error {
			if rel, e := filepath.Rel(w.base, p); err == nil && e == nil {
				add(rel) // what the administrator puts there
			}
			return nil
		})
	}
	for _, p := range st.Pool {
		add(filepath.Join("pool", p.URI))
	}
	if w.later != "" {
		add(filepath.Join("assets", w.later, "distribution.xml"))
	}
	for _, s := range w.staged {
		if rel, err := filepath.Rel(w.base, s.path); err == nil {
			add(rel)
		}
	}
	filepath.Walk(w.base, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(w.base, p)
		if err != nil || strings.HasPrefix(rel, "ferry_db") {
			return nil
		}
		if w.making != "" && filepath.Dir(rel) == filepath.Join("deltaStaging", w.making) && strings.HasSuffix(rel, ".delta.eopkg") {
			return nil // the delta that is just being made or added
		}
		if !may[rel] {
			w.Fail("C46", "%s is there and nothing needs it", rel)
		}
		return nil
	})
	if ents, err := os.ReadDir(w.tmp); err != nil || len(ents) > 0 {
		w.Fail("C46", "left among the temporary files: %v %v", ents, err)
	}
}

// checkModes looks who may read what is published, and who may change what is
// stored.
func (w *World) checkModes(st *State) {
	if w.modes == nil {
		return
	}
	filepath.Walk(w.base, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.Mode()&os.ModeSymlink != 0 {
			return nil
		}
		rel, _ := filepath.Rel(w.base, p)
		perm, b := fi.Mode().Perm(), filepath.Base(p)
		given, isPkg := w.modes[b]
		isPkg = isPkg && fi.Mode().IsRegular()
		want := os.FileMode(0o444)
		if fi.IsDir() {
			want = 0o555
		}
		part := strings.SplitN(rel, "/", 3)
		switch {
		case part[0] == "repo" && len(part) > 1 && st.Repos[part[1]] == nil:
		case rel == "repo" || part[0] == "repo" && !strings.Contains(b, ".new"):
			if isPkg {
				want &= given
			}
			if perm&want != want {
				w.Fail("C45", "with umask %03o %s has mode %03o: not everyone can read it", w.umask, rel, perm)
			}
			if isPkg && given != 0o644 {
				w.Label(fmt.Sprintf("published:%03o", given))
			} else if b == "eopkg-index.xml" {
				w.Label("published:index")
			}
		}
		may := os.FileMode(0o222)&^os.FileMode(w.umask) | 0o200
		if isPkg {
			may = (given | 0o200) & 0o222
		}
		if perm&0o222&^may != 0 {
			w.Fail("C45", "with umask %03o %s has mode %03o: others can change it", w.umask, rel, perm)
		}
		return nil
	})
}

// also adds the property of the current step when it is one of those given.
func (w *World) also(of string) string {
	s := ""
	for _, t := range strings.Split(w.cur, ",") {
		if t != "" && strings.Contains(of, t) {
			s += "," + t
		}
	}
	return s
}

// checkFile compares the stored copies of a listed file with what was imported.
func (w *World) checkFile(st *State, repo, id string) {
	p, ok := w.pkgs[id]
	if !ok {
		return
	}
	tags := "C02,C28,C29" + w.also("C09,C10,C12,C15,C17,C20")
	ps, ok := st.Pool[id]
	if !ok {
		w.Fail(tags, "%q lists %q, of which the pool knows nothing", repo, id)
		return
	}
	if ps.URI != p.URI() || ps.Hash != p.SHA1 || ps.Size != int64(len(p.Bytes)) {
		w.Fail("C02", "%q is advertised as %s size %d sha1 %s; it is %s size %d sha1 %s", id, ps.URI, ps.Size, ps.Hash, p.URI(), len(p.Bytes), p.SHA1)
	}
	if ps.Name != p.Name || ps.Source != p.Source || ps.Rel != p.Release {
		w.Fail("C02,C36", "%q is recorded as %s/%s release %d", id, ps.Source, ps.Name, ps.Rel)
	}
	for _, path := range []string{filepath.Join(w.repoDir(repo), ps.URI), filepath.Join(w.base, "pool", ps.URI)} {
		b, err := os.ReadFile(path)
		rel, _ := filepath.Rel(w.base, path)
		where := repo
		if strings.HasPrefix(rel, "pool/") {
			where = ""
		}
		if os.IsNotExist(err) && w.beingRemoved(where, id, ps.Ref) {
			w.Label("removing")
		} else if err != nil {
			w.Fail(tags, "%q lists %q but %s cannot be read: %v", repo, id, rel, err)
		} else if !bytes.Equal(b, p.Bytes) {
			w.Fail(tags, "%q lists %q but %s has %d bytes that are not the %d imported", repo, id, rel, len(b), len(p.Bytes))
		}
	}
}

func sortedNames(m map[string]map[string]Entry) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func deltaInfo(from, to string, fromRel, toRel int) *core.DeltaInformation {
	return vh.As[core.DeltaInformation](vh.StoredDelta{FromRelease: fromRel, FromID: from, ToRelease: toRel, ToID: to})
}

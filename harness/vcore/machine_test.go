//go:build go1.25

package vcore

import (
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// op is one generated step; what it does depends on the state it meets.
type op struct {
	Kind string
	V    [6]int
}

func mix(v, n int) int {
	if n <= 0 {
		return 0
	}
	return int((uint64(v) * 0x9E3779B97F4A7C15 >> 33) % uint64(n))
}

// kinds with their default weights; the first one is what steps shrink to.
var kinds = []struct {
	name string
	w    int
}{
	{"nop", 1}, {"add", 10}, {"addStrict", 4}, {"addBroken", 1}, {"create", 3}, {"delete", 2}, {"clone", 4}, {"pull", 5},
	{"removeSource", 4}, {"copySource", 4}, {"trimPackages", 4}, {"trimObsolete", 3}, {"index", 2},
	{"assets", 4}, {"deltaAdd", 4}, {"deltaRef", 3}, {"markFailed", 1}, {"reopen", 2}, {"ladder", 4}, {"noise", 0}, {"stage", 0}, {"addStaged", 0}, {"spread", 0},
}

type focusT struct {
	boost map[string]int
	need  []string // labels, any of which makes a case count
	text  string
}

var focus = map[string]focusT{
	"C01": {map[string]int{"spread": 4}, []string{"pool-shared-drop"}, "an operation removed a package or delta from one repository while another still listed it, or dropped the last reference to one"},
	"C02": {nil, []string{"listed-after-removal"}, "some repository still listed files after another operation removed files of the pool or of a repository"},
	"C03": {map[string]int{"removeSource": 10, "trimPackages": 4, "add": 14}, []string{"tip-moved"}, "the tip of some package name changed after it was first set"},
	"C04": {map[string]int{"assets": 10, "index": 6, "ladder": 8, "deltaAdd": 10}, []string{"index-nonempty"}, "an index was regenerated and compared for a repository that holds packages"},
	"C29": {map[string]int{"assets": 8, "clone": 7, "pull": 7}, nil, ""},
	"C28": {map[string]int{"assets": 8, "clone": 7, "pull": 7}, nil, ""},
	"C05": {map[string]int{"noise": 14, "index": 14, "assets": 6}, []string{"artefacts"}, "an index that lists something was regenerated and its compressed copies and checksum files verified"},
	"C06": {map[string]int{"ladder": 10, "deltaAdd": 8, "deltaRef": 6}, []string{"rebuilt"}, "the final contents of a repository that holds packages were rebuilt along another history and both indexes compared"},
	"C09": {map[string]int{"clone": 16, "deltaAdd": 10, "assets": 6, "ladder": 8}, []string{"clone:nonempty"}, "a clone of a repository that holds packages succeeded"},
	"C10": {map[string]int{"pull": 20, "add": 14, "clone": 6}, []string{"pull:changed", "pull:inconsistent"}, "a pull brought in something, or was refused because the target was ahead"},
	"C11": {map[string]int{"removeSource": 20, "add": 12, "deltaAdd": 10, "ladder": 8}, []string{"removeSource:removed"}, "a removal removed at least one package"},
	"C12": {map[string]int{"copySource": 20, "add": 14}, []string{"copySource:copied"}, "a copy brought at least one package into the target"},
	"C13": {map[string]int{"trimPackages": 20, "add": 12, "deltaAdd": 10, "ladder": 10}, []string{"trimPackages:removed"}, "a trim removed at least one package"},
	"C14": {map[string]int{"trimObsolete": 16, "assets": 12, "add": 14}, []string{"trimObsolete:removed"}, "a trim removed at least one obsolete package"},
	"C15": {map[string]int{"create": 14, "delete": 14, "clone": 8}, []string{"delete:nonempty"}, "a repository that held packages was deleted"},
	"C16": {map[string]int{"stage": 8, "addStaged": 5, "delete": 5}, []string{"others-nonempty"}, "an operation changed one repository while another one held packages"},
	"C17": {map[string]int{"add": 24, "addStrict": 8, "addBroken": 3}, []string{"add:again"}, "an import offered at least one package the repository or the pool already had"},
	"C20": {map[string]int{"deltaAdd": 24, "deltaRef": 12, "trimPackages": 8, "removeSource": 8, "markFailed": 4, "index": 6, "clone": 6, "ladder": 12, "copySource": 8, "spread": 12, "stage": 2, "addStaged": 2}, []string{"delta-dropped", "index-with-delta"}, "a delta was dropped with one of its end points or published in an index"},
	"C44": {map[string]int{"reopen": 16, "deltaAdd": 8, "markFailed": 4}, []string{"stored form"}, "the database was laid out afresh in its stored form while repositories held packages"},
	"C45": {map[string]int{"noise": 3, "assets": 6, "deltaAdd": 6, "stage": 6, "addStaged": 4, "clone": 6}, []string{"published:444", "published:664", "published:755", "published:640", "published:600", "published:400"}, "a package whose file has an unusual mode was published, under one of three umasks"},
	"C46": {map[string]int{"removeSource": 8, "trimPackages": 6, "delete": 4, "addBroken": 4, "deltaAdd": 6, "stage": 5, "addStaged": 3, "trimObsolete": 4, "assets": 5}, []string{"listed-after-removal", "delete:nonempty", "removeSource:removed", "trimPackages:removed"}, "something was removed from a repository, or a repository that held packages was deleted"},
	"C27": {map[string]int{"reopen": 20}, []string{"reopen:nonempty"}, "the manager was closed and opened again while repositories held packages"},
}

func genOps(t *rapid.T) []op {
	if vh.Thorough() {
		return genOpsN(t, 10, 70)
	}
	return genOpsN(t, 10, 40)
}

func genOpsN(t *rapid.T, lo, hi int) []op {
	f := focus[vh.PID]
	var ks []string
	for _, k := range kinds {
		w := k.w
		if b, ok := f.boost[k.name]; ok {
			w = b
		}
		for i := 0; i < w; i++ {
			ks = append(ks, k.name)
		}
	}
	g := rapid.Custom(func(t *rapid.T) op {
		var o op
		o.Kind = ks[mix(rapid.IntRange(0, 4095).Draw(t, "kind"), len(ks))]
		for i := range o.V {
			o.V[i] = rapid.IntRange(0, 1023).Draw(t, "v")
		}
		return o
	})
	return rapid.SliceOfN(g, lo, hi).Draw(t, "ops")
}

func TestCore(t *testing.T) {
	f, ok := focus[vh.PID]
	if !ok {
		f = focusT{need: []string{"index-nonempty"}, text: "a repository that holds packages was indexed"}
	}
	vh.SetRule("random histories of 10-40 (thorough: 10-70) repository operations (import, strict import, create, delete, clone, pull, copy, remove, trim, deltas, assets, index, restart) over 2-5 repositories and 1-4 sources whose names share prefixes, the whole observable state compared with the expected one after every step; non-trivial when " + f.text)
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		defer w.Cleanup()
		defer w.close()
		w.stray = true
		w.genUniverse()
		w.prelude()
		for _, o := range genOps(rt) {
			if w.dead {
				break
			}
			w.apply(o)
		}
		if !w.dead && vh.Mine("C06") {
			w.rebuild()
		}
		for _, l := range f.need {
			if w.Has(l) {
				w.Nontrivial()
			}
		}
		w.End()
	})
}

func (w *World) prelude() {
	w.doCreate(w.names[0])
	w.doCreate(w.names[1])
	n := rapid.IntRange(0, 8).Draw(w.t, "seedpkgs")
	var ps []*vh.Pkg
	for i := 0; i < n; i++ {
		ps = append(ps, w.pkgOf(rapid.IntRange(0, 1023).Draw(w.t, "p1"), rapid.IntRange(0, 1023).Draw(w.t, "p2"), rapid.IntRange(0, 1023).Draw(w.t, "p3")))
	}
	if n > 0 {
		w.doAdd(w.names[0], ps, false, "")
	}
}

// pkgOf picks a package of the universe.
func (w *World) pkgOf(a, b, c int) *vh.Pkg {
	s := w.srcs[mix(a, len(w.srcs))]
	name := s.Names[mix(b, len(s.Names))]
	variant := ""
	if c%37 == 36 {
		variant = "b"
	}
	return w.mkPkg(s, name, releases[mix(c, len(releases))], variant)
}

func (w *World) repoOf(st *State, v int, missing bool) string {
	rs := sortedNames(st.Repos)
	if len(rs) == 0 || (missing && v%29 == 28) {
		return w.names[mix(v, len(w.names))]
	}
	return rs[mix(v, len(rs))]
}

func (w *World) apply(o op) {
	if f := w.resolve(o); f != nil {
		f(w)
	}
}

// resolve turns a generated step into what it means in the present state.
func (w *World) resolve(o op) func(x *World) {
	st := w.last
	v := o.V
	switch o.Kind {
	case "nop":
		return nil
	case "add", "addStrict", "addBroken":
		r := w.repoOf(st, v[0], true)
		n := 1 + mix(v[1], 4)
		var ps []*vh.Pkg
		for i := 0; i < n; i++ {
			ps = append(ps, w.pkgOf(v[2], v[3]+i*7, v[4]+i*131))
		}
		bad := ""
		if o.Kind == "addBroken" {
			bad = badKinds[mix(v[5], len(badKinds))]
		}
		if o.Kind == "add" && v[5]%9 == 8 {
			ps = append(ps, w.rebuilt(ps[0]))
		}
		return func(x *World) { x.doAdd(r, ps, o.Kind == "addStrict" && !x.redo, bad) }
	case "ladder":
		// several releases of all packages of one source, at times without one of them
		r := w.repoOf(st, v[0], false)
		src := w.srcs[mix(v[1], len(w.srcs))]
		n := 2 + mix(v[2], 3)
		var ps []*vh.Pkg
		for i := 0; i < n; i++ {
			rel := releases[mix(v[3]+i*131, len(releases))]
			for j, name := range src.Names {
				if v[4]>>(i+j)&3 != 3 {
					ps = append(ps, w.mkPkg(src, name, rel, ""))
				}
			}
		}
		if len(ps) > 0 {
			return func(x *World) {
				x.doAdd(r, ps, false, "")
				if mix(v[5], 2) == 0 && x.mon == nil && !x.redo {
					x.doDeltaAdd(r, []int{v[5], 0, v[4]})
				}
			}
		}
	case "create":
		r := w.names[mix(v[0], len(w.names))]
		return func(x *World) { x.doCreate(r) }
	case "delete":
		r := w.repoOf(st, v[0], true)
		return func(x *World) {
			if x.mon == nil && !x.redo {
				x.doDeleteWith(r, v[1:])
			} else {
				x.doDelete(r)
			}
		}
	case "clone":
		r, dst := w.repoOf(st, v[0], true), w.names[mix(v[1], len(w.names))]
		return func(x *World) { x.doClone(r, dst, v[2]%2 == 0) }
	case "pull":
		r, dst := w.repoOf(st, v[0], true), w.repoOf(st, v[1], true)
		return func(x *World) { x.doPull(r, dst) }
	case "removeSource":
		r := w.repoOf(st, v[0], true)
		s, rel := w.srcRel(st, r, v[1], v[2], v[3])
		return func(x *World) { x.doRemoveSource(r, s, rel) }
	case "copySource":
		r := w.repoOf(st, v[0], true)
		s, rel := w.srcRel(st, r, v[1], v[2], v[3])
		dst := w.repoOf(st, v[4], true)
		return func(x *World) { x.doCopySource(r, dst, s, rel, v[5]%3 == 0) }
	case "trimPackages":
		r := w.repoOf(st, v[0], true)
		return func(x *World) { x.doTrimPackages(r, []int{1, 2, 3, 0, 5, -1, 2, 1}[mix(v[1], 8)]) }
	case "trimObsolete":
		r := w.repoOf(st, v[0], true)
		return func(x *World) { x.doTrimObsolete(r) }
	case "index":
		r := w.repoOf(st, v[0], true)
		return func(x *World) {
			if vh.PID == "C46" {
				x.spoilt(r, v[1:])
			}
			x.doIndex(r)
		}
	case "assets":
		return func(x *World) { x.setAssets(x.repoOf(st, v[0], false), v[1:]) }
	case "deltaAdd":
		r := w.repoOf(st, v[0], false)
		if n, id := w.pickDelta(r, v[1:]); id != "" {
			return func(x *World) { x.addDelta(r, n, id) }
		}
	case "deltaRef":
		r := w.refTarget(st, v[0])
		id := w.pickRef(r, v[1])
		if p := w.pkgs[id]; p != nil && v[2]%3 == 0 {
			if e := st.Repos[r][p.Name]; contains(e.Avail, w.deltas[id].From) && contains(e.Avail, w.deltas[id].To) {
				return func(x *World) { x.addDelta(r, p.Name, id) }
			}
		}
		return func(x *World) { x.doDeltaRef(r, id) }
	case "markFailed":
		return func(x *World) { x.doMarkFailed(v[0]) }
	case "reopen":
		return func(x *World) { x.doReopen(v[:]) }
	case "spread":
		// two or three builds and a delta between them in several repositories
		src := w.srcs[mix(v[1], len(w.srcs))]
		name := src.Names[mix(v[2], len(src.Names))]
		rel := releases[mix(v[3], len(releases))]
		ps := []*vh.Pkg{w.mkPkg(src, name, rel, ""), w.mkPkg(src, name, releases[mix(v[3]+131, len(releases))], "")}
		if v[4]%3 != 0 {
			ps = append(ps, w.mkPkg(src, name, rel, "b"))
		}
		return func(x *World) {
			for i, r := range sortedNames(st.Repos) {
				if v[0]>>i&3 == 3 || x.dead {
					continue
				}
				x.doAdd(r, ps, false, "")
				if x.mon != nil || x.redo || x.dead {
					continue
				}
				var known []string
				for _, id := range vh.SortedKeys(x.last.Pool) {
					e, m := x.last.Repos[r][name], x.deltas[id]
					if x.last.Pool[id].Delta && contains(e.Avail, m.From) && contains(e.Avail, m.To) && !contains(e.Deltas, id) {
						known = append(known, id)
					}
				}
				switch {
				case len(known) == 0:
					if n, id := x.pickDelta(r, []int{v[4], v[4], v[5]}, name); id != "" {
						x.addDelta(r, n, id)
					}
				case v[5]>>i&1 == 0:
					x.addDelta(r, name, known[mix(v[5], len(known))])
				default:
					x.doDeltaRef(r, known[mix(v[5], len(known))])
				}
				if mix(v[5]+i, 3) == 0 && !x.dead {
					x.doTrimPackages(r, max(1, len(x.last.Repos[r][name].Avail)-1))
				}
			}
		}
	case "stage":
		r := w.repoOf(st, v[0], false)
		return func(x *World) { x.doStage(r, v[1:]) }
	case "addStaged":
		return func(x *World) { x.doAddStaged(v[0]) }
	case "noise":
		r := w.repoOf(st, v[0], false)
		return func(x *World) { x.indexNoise(r, v[1:]) }
	default:
		vh.Abort("no operation %s", o.Kind)
	}
	return nil
}

// srcRel picks a source and release, mostly one that the repository has.
func (w *World) srcRel(st *State, r string, a, b, c int) (string, int) {
	var have []*vh.Pkg
	for _, n := range vh.SortedKeys(st.Repos[r]) {
		for _, id := range st.Repos[r][n].Avail {
			if p := w.pkgs[id]; p != nil {
				have = append(have, p)
			}
		}
	}
	if len(have) == 0 || a%11 == 10 {
		s := w.srcs[mix(a, len(w.srcs))]
		if a%2 == 0 {
			return s.Names[mix(b, len(s.Names))], releases[mix(c, len(releases))]
		}
		return s.Name, releases[mix(c, len(releases))]
	}
	p := have[mix(a, len(have))]
	rel := p.Release
	switch mix(b, 5) {
	case 0:
		rel = -1
	case 1:
		rel = releases[mix(c, len(releases))]
	}
	return p.Source, rel
}

// expect is what a step must lead to.
type expect struct {
	tags    string
	err     bool
	repos   map[string]map[string]Entry // the whole expected listing
	target  string                      // the repository the step is about
	index   bool                        // the target's index must be fresh
	noindex bool                        // the target's index must not change
	free    bool                        // the target's assets may change
	pred    func(got map[string]Entry) string
}

func copyRepos(r map[string]map[string]Entry) map[string]map[string]Entry {
	c := map[string]map[string]Entry{}
	for k, v := range r {
		c[k] = copyRepo(v)
	}
	return c
}

// run does one step and judges everything that can be seen afterwards.
func (w *World) run(name string, e expect, f func() error) (*State, error) {
	w.step++
	pre, preTrees := w.last, w.trees
	if w.extra != "" {
		e.tags += "," + w.extra
	}
	w.cur = e.tags
	w.Op("%s%d: %s", w.indent, w.step, name)
	var o vh.Outcome
	if w.mon != nil {
		o = w.mon.watch(w, e, f)
	} else if w.around != nil {
		o = w.around(name, e, f)
	} else {
		o = vh.Guard(f)
	}
	if o.Broken() == "" && w.around == nil {
		w.CheckHeld(name)
	}
	if w.mon != nil && w.mon.struck && o.Err != nil && o.Broken() == "" {
		w.afterFault(name, e, pre, preTrees, o.Err)
		return w.last, o.Err
	}
	if b := o.Broken(); b != "" {
		w.dead = true
		w.Fail(e.tags, "%s: %s", name, b)
		return pre, nil
	}
	if o.Err != nil && !e.err {
		w.dead = true
		w.Fail(e.tags, "%s fails: %v", name, o.Err)
		return pre, o.Err
	}
	if o.Err == nil && e.err {
		w.dead = true
		w.Fail(e.tags, "%s succeeds and must be refused", name)
		return pre, nil
	}
	if o.Err != nil {
		w.Label("refused")
	}
	post := w.observe()
	if w.dead {
		return post, o.Err
	}
	w.last = post
	w.trees = w.snapTrees()
	// listings
	for _, r := range vh.SortedKeys(e.repos) {
		got, ok := post.Repos[r]
		tags := "C16," + e.tags
		if r == e.target {
			tags = e.tags
		}
		if !ok {
			w.Fail(tags, "after %s the repository %q is gone", name, r)
			continue
		}
		if r == e.target && e.pred != nil {
			if d := e.pred(got); d != "" {
				if strings.Contains(d, " deltas ") {
					tags += ",C20"
				}
				w.Fail(tags, "after %s in %q: %s", name, r, d)
			}
			continue
		}
		if d := diffRepo(got, e.repos[r]); d != "" {
			if strings.Contains(d, " deltas ") {
				tags += ",C20"
			}
			w.Fail(tags, "after %s in %q: %s", name, r, d)
		}
	}
	for _, r := range vh.SortedKeys(post.Repos) {
		if _, ok := e.repos[r]; !ok {
			w.Fail("C16,"+e.tags, "after %s there is a repository %q", name, r)
		}
	}
	// files
	for _, r := range vh.SortedKeys(preTrees) {
		if r == e.target {
			continue
		}
		if d := vh.DiffTree(preTrees[r], w.trees[r]); d != "" {
			w.Fail("C16", "%s changes files of %q: %s", name, r, d)
		}
	}
	for _, r := range vh.SortedKeys(w.trees) {
		if _, ok := preTrees[r]; !ok && r != e.target {
			w.Fail("C16", "%s makes files of %q", name, r)
		}
	}
	if o.Err != nil && !e.free {
		if d := vh.DiffTree(preTrees[e.target], w.trees[e.target]); d != "" {
			w.Fail(e.tags, "%s is refused (%v) and changes files of %q: %s", name, o.Err, e.target, d)
		}
	}
	if e.noindex {
		a, b := map[string]string{}, map[string]string{}
		for k, v := range preTrees[e.target] {
			if strings.Contains(k, "eopkg-index") {
				a[k] = v
			}
		}
		for k, v := range w.trees[e.target] {
			if strings.Contains(k, "eopkg-index") {
				b[k] = v
			}
		}
		if d := vh.DiffTree(a, b); d != "" {
			w.Fail(e.tags, "%s changes the index of %q: %s", name, e.target, d)
		}
	}
	w.keepStaged(name, e)
	w.invariants(post, false)
	if w.dead {
		return post, o.Err
	}
	w.labels(pre, post, e)
	if e.index && o.Err == nil {
		w.checkIndex(post, e.target, e.tags)
		if len(post.Repos[e.target]) > 0 {
			w.Label("index-nonempty")
		}
	}
	return post, o.Err
}

// labels notes what the step made happen.
func (w *World) labels(pre, post *State, e expect) {
	dropped := false
	for id, p := range pre.Pool {
		q, ok := post.Pool[id]
		if !ok || q.Ref < p.Ref {
			dropped = true
			w.Label("pool-shared-drop")
			if p.Delta {
				w.Label("delta-dropped")
			}
		}
	}
	for r, es := range pre.Repos {
		for n, x := range es {
			y := post.Repos[r][n]
			for _, d := range x.Deltas {
				if m := w.deltas[d]; !contains(y.Deltas, d) {
					switch {
					case contains(y.Avail, m.To):
						w.Label("delta-lost-its-origin")
					case contains(y.Avail, m.From):
						w.Label("delta-lost-its-target")
					}
				}
			}
		}
	}
	if dropped {
		for _, r := range post.Repos {
			if len(r) > 0 {
				w.Label("listed-after-removal")
				break
			}
		}
	}
	changed := false
	for r, es := range post.Repos {
		for n, x := range es {
			if y, ok := pre.Repos[r][n]; ok && y.Published != x.Published {
				w.Label("tip-moved")
			}
		}
		if diffRepo(es, pre.Repos[r]) != "" {
			changed = true
		}
	}
	if changed {
		for r, es := range post.Repos {
			if r != e.target && len(es) > 0 {
				w.Label("others-nonempty")
				break
			}
		}
	}
}

func (w *World) doCreate(r string) {
	e := expect{tags: "C15", repos: copyRepos(w.last.Repos), target: r, index: true}
	if _, ok := e.repos[r]; ok {
		e.err = true
	} else {
		e.repos[r] = map[string]Entry{}
	}
	w.run(fmt.Sprintf("create %q", r), e, func() error { return w.m.CreateRepo(r) })
}

var repoDirs = []string{"repo", "assets", "deltaBuilds", "deltaStaging"}

// doDeleteWith deletes a repository after someone left things of their own
// in its directories, or tries to by a name that is not quite it.
func (w *World) doDeleteWith(r string, v []int) {
	switch mix(v[0], 6) {
	case 0:
		r = []string{r + " ", " " + r, r + "\n", strings.ToUpper(r), r + "-", r[:len(r)-1], r + "."}[mix(v[1], 7)]
	case 1, 2:
		if _, ok := w.last.Repos[r]; !ok {
			break
		}
		d := filepath.Join(w.base, repoDirs[mix(v[1], 4)], r)
		f := []string{".keep", ".well-known/x", "index.html", "a/b/c", "-x"}[mix(v[2], 5)]
		p := filepath.Join(d, f)
		if os.MkdirAll(filepath.Dir(p), 0o755) == nil {
			os.WriteFile(p, []byte("left here"), 0o644)
		}
		w.Label("delete:left-overs")
		w.Op("%d: %s is left in %q", w.step, f, strings.TrimPrefix(d, w.base+"/"))
		w.trees = w.snapTrees()
	}
	w.doDelete(r)
}

func (w *World) doDelete(r string) {
	e := expect{tags: "C15", repos: copyRepos(w.last.Repos), target: r}
	es, ok := e.repos[r]
	e.err = !ok
	delete(e.repos, r)
	_, err := w.run(fmt.Sprintf("delete %q", r), e, func() error { return w.m.DeleteRepo(r) })
	if w.dead || err != nil {
		return
	}
	if len(es) > 0 {
		w.Label("delete:nonempty")
	}
	for _, d := range repoDirs {
		if _, err := os.Lstat(filepath.Join(w.base, d, r)); err == nil {
			w.Fail("C15", "%q was deleted and %s/%s is still there", r, d, r)
		}
	}
}

// rebuilt is the same package id with other contents.
func (w *World) rebuilt(p *vh.Pkg) *vh.Pkg {
	sp := *p.Spec
	sp.Filler += "rebuilt"
	return sp.Build()
}

func (w *World) doAdd(r string, ps []*vh.Pkg, strict bool, bad string) {
	e := expect{tags: "C17", repos: copyRepos(w.last.Repos), target: r, index: true}
	if strict {
		e.tags = "C17,C18"
	}
	if bad != "" {
		e.tags = "C17,C30"
	}
	dir, err := os.MkdirTemp(w.inbox, "in")
	if err != nil {
		vh.Abort("%v", err)
	}
	var paths, ids []string
	seen := map[string]int{}
	for _, p := range ps {
		d := dir
		if k := seen[p.ID]; k > 0 {
			d = filepath.Join(dir, fmt.Sprint(k))
		}
		seen[p.ID]++
		path, id := p.WriteTo(d), p.ID
		if w.modes != nil {
			mode := []os.FileMode{0o644, 0o644, 0o444, 0o664, 0o755, 0o640, 0o600, 0o400}[mix(rapid.IntRange(0, 1023).Draw(w.t, "mode"), 8)]
			if err := os.Chmod(path, mode); err != nil {
				vh.Abort("%v", err)
			}
			if _, known := w.last.Pool[p.ID]; !known && seen[p.ID] == 1 {
				w.modes[p.ID] = mode
			}
			id += fmt.Sprintf(" (%03o)", mode)
		}
		if len(p.Bytes)%8 == 3 {
			path, id = viaLink(path), id+" (a link)"
		} else if st, known := w.last.Pool[p.ID]; known && w.modes == nil && (w.step+len(p.Bytes))%4 == 0 && bytes.Equal(w.pkgs[p.ID].Bytes, p.Bytes) {
			// the very file the pool holds, under another name
			os.Remove(path)
			if err := os.Link(filepath.Join(w.base, "pool", st.URI), path); err != nil {
				vh.Abort("%v", err)
			}
			id += " (a hard link of the pool's)"
			w.Label("add:own")
		}
		paths = append(paths, path)
		ids = append(ids, id)
	}
	if bad != "" {
		paths = append(paths, badFile(dir, bad))
		ids = append(ids, "<"+bad+">")
		e.err = true
	}
	es, ok := e.repos[r]
	again := false
	if !ok {
		e.err = true
	} else {
		inPool := map[string]bool{}
		for id := range w.last.Pool {
			inPool[id] = true
		}
		for _, p := range ps {
			if inPool[p.ID] {
				again = true
			} else {
				w.pkgs[p.ID] = p // the bytes that count are the first ones
			}
			if strict {
				top := -1
				for _, id := range es[p.Name].Avail {
					top = max(top, w.release(id))
				}
				if top >= p.Release {
					e.err = true
					break
				}
			}
			inPool[p.ID] = true
			addAvail(es, p.Name, p.ID)
		}
		if e.err {
			// what came before the offending file may stay, and nothing else
			before := w.last.Repos[r]
			all := es
			e.pred = func(got map[string]Entry) string {
				for _, n := range vh.SortedKeys(before) {
					x := before[n]
					if !sameSet(intersect(got[n].Avail, x.Avail), x.Avail) || !sameSet(got[n].Deltas, x.Deltas) {
						return fmt.Sprintf("%s has %v, had %v", n, got[n], x)
					}
				}
				for _, n := range vh.SortedKeys(got) {
					x := got[n]
					for _, id := range x.Avail {
						if !setOf(all[n].Avail)[id] {
							return fmt.Sprintf("%s has %s", n, id)
						}
					}
				}
				return ""
			}
			e.free = true
		}
	}
	if w.stray && !e.err {
		w.leaveBehind(r, ps)
	}
	kind := "import"
	if strict {
		kind = "strict import"
	}
	_, rerr := w.run(fmt.Sprintf("%s into %q: %s", kind, r, strings.Join(ids, " ")), e, func() error { return w.m.AddPackages(r, paths, strict) })
	if w.dead {
		return
	}
	if again && rerr == nil {
		w.Label("add:again")
	}
	for i, p := range ps {
		b, err := os.ReadFile(paths[i])
		if err != nil || !bytes.Equal(b, p.Bytes) {
			w.Fail("C17,C02", "importing %q changed the offered file (%d bytes, %v)", p.ID, len(b), err)
		}
	}
	os.RemoveAll(dir)
	if rerr == nil {
		// the builder's copy is gone: ours must not be
		w.invariants(w.last, false)
	}
}

// leaveBehind puts a file where the next import will put one: what an import
// that was cut short, or an administrator, left there.
func (w *World) leaveBehind(r string, ps []*vh.Pkg) {
	p := ps[0]
	k := len(p.Bytes) + w.step
	if k%3 != 0 {
		return
	}
	at := filepath.Join("repo", r)
	if _, known := w.last.Pool[p.ID]; !known && k%2 == 0 {
		at = "pool"
	} else if setOf(w.last.Repos[r][p.Name].Avail)[p.ID] {
		return
	}
	path := filepath.Join(w.base, at, p.URI())
	what := [][]byte{p.Bytes[:len(p.Bytes)/2], append(append([]byte{}, p.Bytes...), "and more"...), nil, []byte("something else")}[k/3%4]
	if _, err := os.Lstat(path); err == nil {
		return
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		vh.Abort("%v", err)
	}
	if err := os.WriteFile(path, what, 0o644); err != nil {
		vh.Abort("%v", err)
	}
	w.Op("%s is there already, with %d bytes that are not the package's", filepath.Join(at, p.URI()), len(what))
	w.Label("add:stray")
	w.trees = w.snapTrees()
}

// viaLink moves a file elsewhere and leaves a symbolic link to it.
func viaLink(path string) string {
	store := filepath.Join(filepath.Dir(path), "store")
	if err := os.MkdirAll(store, 0o755); err != nil {
		vh.Abort("%v", err)
	}
	to := filepath.Join(store, filepath.Base(path))
	if err := os.Rename(path, to); err != nil {
		vh.Abort("%v", err)
	}
	if len(to)%2 == 0 {
		to = filepath.Join("store", filepath.Base(path))
	}
	if err := os.Symlink(to, path); err != nil {
		vh.Abort("%v", err)
	}
	return path
}

var badKinds = []string{"garbage", "missing", "truncated", "nometa", "emptymeta", "empty"}

func badFile(dir, kind string) string {
	p := filepath.Join(dir, kind+"-1-1-1-x86_64.eopkg")
	sp := &vh.Spec{Name: "bad", Source: "bad", DistRel: "1", Arch: "x86_64", Summary: "s", Desc: "d", History: []vh.Upd{{Release: 1, Version: "1"}}}
	b := sp.Build().Bytes
	switch kind {
	case "missing":
		return p
	case "garbage":
		b = []byte("this is no archive")
	case "truncated":
		b = b[:len(b)/2]
	case "empty":
		b = nil
	case "nometa", "emptymeta":
		raw := map[string]string{"nometa": "<PISI>", "emptymeta": ""}[kind]
		sp.Raw = &raw
		b = sp.Build().Bytes
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		vh.Abort("%v", err)
	}
	return p
}

func intersect(a, b []string) []string {
	m := setOf(b)
	var r []string
	for _, x := range a {
		if m[x] {
			r = append(r, x)
		}
	}
	return r
}

// copyAssetsExpect says what the assets of dst are after taking src's.
func (w *World) assetFiles(r string) map[string]string {
	m := map[string]string{}
	for _, f := range assetNames {
		if b, err := os.ReadFile(filepath.Join(w.assetDir(r), f)); err == nil {
			m[f] = string(b)
		}
	}
	return m
}

var assetNames = []string{"distribution.xml", "components.xml", "groups.xml"}

func (w *World) doClone(src, dst string, full bool) {
	e := expect{tags: "C09", repos: copyRepos(w.last.Repos), target: dst, index: true}
	es, ok := e.repos[src]
	_, exists := e.repos[dst]
	nonempty := len(es) > 0
	if !ok || exists {
		e.err = true
	} else {
		n := copyRepo(es)
		if !full {
			for k, x := range n {
				n[k] = Entry{Avail: []string{x.Published}}
			}
		}
		e.repos[dst] = n
	}
	before := w.assetFiles(src)
	mode := "tip"
	if full {
		mode = "full"
	}
	_, err := w.run(fmt.Sprintf("clone %q to %q (%s)", src, dst, mode), e, func() error { return w.m.CloneRepo(src, dst, full) })
	if w.dead || err != nil {
		return
	}
	if nonempty {
		w.Label("clone:nonempty")
	}
	if g := w.assetFiles(dst); fmt.Sprint(g) != fmt.Sprint(before) {
		w.Fail("C09,"+w.extra, "the clone %q of %q has other assets: %v, want %v", dst, src, g, before)
	}
}

func (w *World) doPull(src, dst string) {
	e := expect{tags: "C10", repos: copyRepos(w.last.Repos), target: dst, index: true}
	ss, ok1 := w.last.Repos[src]
	ds, ok2 := e.repos[dst]
	var want []string
	incons := false
	if !ok1 || !ok2 {
		e.err = true
	} else {
		n := copyRepo(ds)
		for name, x := range ss {
			mine, ok := ds[name]
			switch {
			case !ok || w.release(x.Published) > w.release(mine.Published):
				addAvail(n, name, x.Published)
				want = append(want, name)
			case w.release(x.Published) < w.release(mine.Published):
				incons = true
			}
		}
		if incons {
			e.err, e.free = true, true
			e.index = false
		} else {
			e.repos[dst] = n
		}
	}
	wantAssets := w.assetFiles(dst)
	for k, v := range w.assetFiles(src) {
		wantAssets[k] = v
	}
	var changed []string
	_, err := w.run(fmt.Sprintf("pull %q into %q", src, dst), e, func() error {
		var err error
		changed, err = w.m.PullRepo(src, dst)
		return err
	})
	if w.dead {
		return
	}
	if incons {
		w.Label("pull:inconsistent")
	}
	if err != nil || w.hidden {
		return
	}
	sort.Strings(want)
	sort.Strings(changed)
	if strings.Join(want, ",") != strings.Join(changed, ",") {
		w.Fail("C10", "the pull of %q into %q reports %v as changed; it changed %v", src, dst, changed, want)
	}
	if len(want) > 0 {
		w.Label("pull:changed")
	}
	if g := w.assetFiles(dst); fmt.Sprint(g) != fmt.Sprint(wantAssets) {
		w.Fail("C10,"+w.extra, "after pulling %q into %q its assets are %v, want %v", src, dst, g, wantAssets)
	}
}

func (w *World) matches(es map[string]Entry, src string, rel int) map[string]bool {
	m := map[string]bool{}
	for _, x := range es {
		for _, id := range x.Avail {
			p := w.pkgs[id]
			if p != nil && p.Source == src && (rel <= 0 || p.Release == rel) {
				m[id] = true
			}
		}
	}
	return m
}

func (w *World) doRemoveSource(r, src string, rel int) {
	e := expect{tags: "C11", repos: copyRepos(w.last.Repos), target: r, index: true}
	gone := w.matches(e.repos[r], src, rel)
	if len(gone) == 0 {
		e.err = true
	} else {
		w.dropIDs(e.repos[r], gone)
	}
	_, err := w.run(fmt.Sprintf("remove source %q release %d from %q", src, rel, r), e, func() error { return w.m.RemoveSource(r, src, rel) })
	if !w.dead && err == nil {
		w.Label("removeSource:removed")
	}
}

func (w *World) doCopySource(r, dst, src string, rel int, skip bool) {
	e := expect{tags: "C12", repos: copyRepos(w.last.Repos), target: dst, index: !skip, noindex: skip}
	m := w.matches(e.repos[r], src, rel)
	n := 0
	if ds, ok := e.repos[dst]; !ok || len(m) == 0 {
		e.err = true
	} else {
		for _, id := range vh.SortedKeys(m) {
			k := len(ds[w.pkgs[id].Name].Avail)
			addAvail(ds, w.pkgs[id].Name, id)
			n += len(ds[w.pkgs[id].Name].Avail) - k
		}
	}
	_, err := w.run(fmt.Sprintf("copy source %q release %d from %q to %q (skip index %v)", src, rel, r, dst, skip), e, func() error {
		return w.m.CopySource(r, dst, src, rel, skip)
	})
	if !w.dead && err == nil && n > 0 {
		w.Label("copySource:copied")
	}
}

func (w *World) doTrimPackages(r string, keep int) {
	e := expect{tags: "C13", repos: copyRepos(w.last.Repos), target: r, index: true}
	es, ok := e.repos[r]
	removed := 0
	if !ok || keep < 1 {
		e.err = true
	} else {
		pre := w.last.Repos[r]
		gone := map[string]bool{}
		ties := false
		for _, x := range es {
			rels := map[int]bool{}
			for _, id := range x.Avail {
				if rels[w.release(id)] {
					ties = true
				}
				rels[w.release(id)] = true
			}
			av := append([]string(nil), x.Avail...)
			sort.Slice(av, func(i, j int) bool { return w.release(av[i]) > w.release(av[j]) })
			for i := keep; i < len(av); i++ {
				gone[av[i]] = true
			}
		}
		removed = len(gone)
		w.dropIDs(es, gone)
		if ties {
			w.Label("trimPackages:ties")
			e.pred = func(got map[string]Entry) string { return w.trimPred(pre, got, keep) }
		}
	}
	_, err := w.run(fmt.Sprintf("trim %q to %d packages", r, keep), e, func() error { return w.m.TrimPackages(r, keep) })
	if !w.dead && err == nil && removed > 0 {
		w.Label("trimPackages:removed")
	}
}

// trimPred judges a trim when two packages of one name share a release.
func (w *World) trimPred(pre, got map[string]Entry, keep int) string {
	for _, n := range vh.SortedKeys(got) {
		if _, ok := pre[n]; !ok {
			return n + " appeared"
		}
	}
	for _, n := range vh.SortedKeys(pre) {
		x, g := pre[n], got[n]
		if len(intersect(g.Avail, x.Avail)) != len(g.Avail) {
			return fmt.Sprintf("%s has %v of %v", n, g.Avail, x.Avail)
		}
		want := min(keep, len(x.Avail))
		tieAtTip := 0
		for _, id := range x.Avail {
			if w.release(id) == w.release(x.Published) {
				tieAtTip++
			}
		}
		if len(g.Avail) != want && !(len(g.Avail) == want+1 && tieAtTip > 1) {
			return fmt.Sprintf("%s keeps %v of %v, asked for %d", n, g.Avail, x.Avail, keep)
		}
		if !setOf(g.Avail)[x.Published] {
			return fmt.Sprintf("%s loses its tip %s", n, x.Published)
		}
		kept := setOf(g.Avail)
		low := 1 << 60
		for id := range kept {
			low = min(low, w.release(id))
		}
		gone := map[string]bool{}
		for _, id := range x.Avail {
			if !kept[id] {
				gone[id] = true
				if w.release(id) > low {
					return fmt.Sprintf("%s loses %s and keeps %v", n, id, g.Avail)
				}
			}
		}
		var ds []string
		for _, d := range x.Deltas {
			if m := w.deltas[d]; !gone[m.From] && !gone[m.To] {
				ds = append(ds, d)
				for id := range gone {
					if w.release(id) == w.release(m.From) || w.release(id) == w.release(m.To) {
						w.Label("trimPackages:delta-of-twin")
					}
				}
			}
		}
		if !sameSet(ds, g.Deltas) {
			return fmt.Sprintf("%s has deltas %v, want %v", n, g.Deltas, ds)
		}
	}
	return ""
}

func (w *World) doTrimObsolete(r string) {
	e := expect{tags: "C14", repos: copyRepos(w.last.Repos), target: r, index: true}
	es, ok := e.repos[r]
	gone := map[string]bool{}
	a := w.readAssets(r)
	if !ok || a.dist == nil {
		e.err = true
	} else {
		for n, x := range es {
			if a.obs[n] || a.obsolete(n) {
				for _, id := range x.Avail {
					gone[id] = true
				}
			}
		}
		w.dropIDs(es, gone)
	}
	_, err := w.run(fmt.Sprintf("trim obsolete %q", r), e, func() error { return w.m.TrimObsolete(r) })
	if !w.dead && err == nil && len(gone) > 0 {
		w.Label("trimObsolete:removed")
	}
}

func (w *World) doIndex(r string) {
	e := expect{tags: "C04", repos: copyRepos(w.last.Repos), target: r, index: true}
	if _, ok := e.repos[r]; !ok {
		e.err = true
	}
	w.run(fmt.Sprintf("index %q", r), e, func() error { return w.m.Index(r) })
}

// spoilt indexes a repository whose assets are of no use, which may fail.
func (w *World) spoilt(r string, v []int) {
	if w.last.Repos[r] == nil || w.dead {
		return
	}
	what, undo := w.spoil(r, v)
	w.Op("%s of %q and its index", what, r)
	o := vh.Guard(func() error { return w.m.Index(r) })
	if o.Broken() == "" {
		w.checkTidy(w.last)
		if o.Err != nil {
			w.Label("spoilt:failed")
		}
	}
	undo()
}

// indexNoise leaves behind what an interrupted or an older indexing, or a
// meddling administrator, may leave in the directory of the index.
func (w *World) indexNoise(r string, v []int) {
	if _, ok := w.last.Repos[r]; !ok {
		return
	}
	w.step++
	var what []string
	for i := 0; i <= mix(v[0], 3); i++ {
		base := "eopkg-index.xml" + []string{"", ".new", ".xz", ".zst", ".new.xz", ".new.zst"}[mix(v[1]+i*73, 6)]
		f := base
		if !strings.Contains(base, ".new") {
			f += []string{"", ".sha1sum", ".sha256sum", ".sha1sum.new", ".sha256sum.new"}[mix(v[2]+i*37, 5)]
		}
		p := filepath.Join(w.repoDir(r), f)
		if mix(v[3]+i*11, 3) == 0 {
			os.Remove(p)
			what = append(what, "no "+f)
			continue
		}
		// longer and shorter than what belongs there
		data := strings.Repeat("stale ", 1+mix(v[4]+i, 3)*mix(v[3], 2000))
		os.Remove(p)
		if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
			vh.Abort("%v", err)
		}
		what = append(what, fmt.Sprintf("%d bytes of garbage in %s", len(data), f))
	}
	w.Op("%d: in %q: %s", w.step, r, strings.Join(what, ", "))
	w.Label("noise")
	w.trees = w.snapTrees()
}

func lang(n *vh.Node, l string) *vh.Node {
	if l != "" {
		n.With("xml:lang", l)
	}
	return n
}

// setAssets writes what an administrator would.
func (w *World) setAssets(r string, v []int) {
	if _, ok := w.last.Repos[r]; !ok {
		return
	}
	dir := w.assetDir(r)
	write := func(name string, n *vh.Node) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(n.String()), 0o644); err != nil {
			vh.Abort("%v", err)
		}
	}
	w.step++
	var what string
	switch mix(v[0], 8) {
	case 0, 1, 2, 3:
		var names []string
		for _, s := range w.srcs {
			names = append(names, s.Names...)
		}
		names = append(names, "gone", "unknown-dbginfo")
		obs := vh.Elem("Obsoletes")
		k := mix(v[1], 4)
		var ob []string
		for i := 0; i < k; i++ {
			n := names[mix(v[2]+i*57, len(names))]
			if mix(v[4]+i*31, 5) == 3 {
				// not quite the name of a package
				n = []string{strings.Replace(n, "-dbginfo", "", 1), n + "-dbginfo", strings.ToUpper(n), n[:len(n)-1], n + "x", n + " ", " " + n, "-dbginfo"}[mix(v[3]+i*13, 8)]
			}
			obs.Add(vh.TextElem("Package", n))
			ob = append(ob, n)
		}
		d := vh.Elem("PISI", vh.TextElem("SourceName", "Solus"),
			lang(vh.TextElem("Description", fmt.Sprintf("Solus & co %d", v[3]%4)), []string{"", "en"}[v[4]%2]),
			vh.TextElem("Version", "1"), vh.TextElem("Type", "main"), vh.TextElem("BinaryName", "Solus"), obs)
		write("distribution.xml", d)
		what = fmt.Sprintf("distribution.xml obsoleting %v", ob)
	case 4:
		cs, gs := vh.Elem("Components"), vh.Elem("Groups")
		for i := 0; i < mix(v[1], 4); i++ {
			n := []string{"system.utils", "desktop", "system.base", "a.z"}[mix(v[2]+i*71, 4)] + fmt.Sprint(i)
			if i > 0 && mix(v[4]+i, 3) == 0 {
				n = cs.Kids[i-1].Get("Name") // there more than once
			}
			cs.Add(vh.Elem("Component", vh.TextElem("Name", n), lang(vh.TextElem("LocalName", n+"-l"), []string{"", "en", "de"}[mix(v[3]+i, 3)]),
				vh.TextElem("Summary", "sum"), vh.TextElem("Description", "desc é"), vh.TextElem("Group", "g"),
				vh.Elem("Maintainer", vh.TextElem("Name", "M"), vh.TextElem("Email", "m@x"))))
			gs.Add(vh.Elem("Group", vh.TextElem("Name", n), lang(vh.TextElem("LocalName", n), []string{"", "en"}[mix(v[3]+i, 2)]), vh.TextElem("Icon", "i")))
		}
		write("components.xml", vh.Elem("PISI", cs))
		write("groups.xml", vh.Elem("PISI", gs))
		what = fmt.Sprintf("%d components and groups", len(cs.Kids))
		for i, c := range cs.Kids {
			if i > 0 && c.Get("Name") == cs.Kids[i-1].Get("Name") {
				w.Label("component-twice")
			}
		}
	case 5:
		f := assetNames[mix(v[1], 3)]
		os.Remove(filepath.Join(dir, f))
		what = "no " + f
	default:
		// an edit that one cannot tell from the size, nor from the time
		f := filepath.Join(dir, assetNames[mix(v[1], 3)])
		b, err := os.ReadFile(f)
		st, err2 := os.Stat(f)
		if err != nil || err2 != nil {
			return
		}
		t := string(b)
		if mix(v[2], 2) == 0 {
			for _, s := range w.srcs { // another name becomes obsolete
				for _, n := range s.Names {
					for _, o := range s.Names {
						if len(n) == len(o) && n != o && t == string(b) {
							t = strings.Replace(t, ">"+n+"<", ">"+o+"<", 1)
						}
					}
				}
			}
		}
		for _, x := range [][2]string{{">gone<", ">done<"}, {"desc é", "desc è"}, {"desc è", "desc é"}, {">i<", ">j<"}, {">j<", ">i<"}, {"co 0", "co 5"}, {"co 1", "co 0"}, {"co 2", "co 1"}, {"co 3", "co 2"}, {"co 5", "co 3"}} {
			if t == string(b) {
				t = strings.Replace(t, x[0], x[1], 1+mix(v[3], 3))
			}
		}
		if t == string(b) {
			return
		}
		if err := os.WriteFile(f, []byte(t), 0o644); err != nil {
			vh.Abort("%v", err)
		}
		os.Chtimes(f, st.ModTime(), st.ModTime())
		w.Label("asset-edited-in-place")
		what = "a small edit in " + filepath.Base(f)
	}
	w.Op("%d: assets of %q: %s", w.step, r, what)
	w.trees = w.snapTrees()
}

// doDeltaAdd offers a delta between two available packages of one name.
func (w *World) doDeltaAdd(r string, v []int) {
	if n, id := w.pickDelta(r, v); id != "" {
		w.addDelta(r, n, id)
	}
}

// pickDelta chooses the end points of a delta that can be added.
func (w *World) pickDelta(r string, v []int, only ...string) (string, string) {
	n, from, to := w.pickBuilds(r, v, only...)
	if n == "" {
		return "", ""
	}
	return n, w.deltaBetween(w.last.Repos[r][n], n, from, to)
}

// pickBuilds chooses an older and a newer build of one name.
func (w *World) pickBuilds(r string, v []int, only ...string) (string, string, string) {
	es := w.last.Repos[r]
	var names []string
	for _, n := range vh.SortedKeys(es) {
		if len(only) > 0 && !contains(only, n) {
			continue
		}
		lo, hi := 1<<60, -1
		for _, id := range es[n].Avail {
			lo, hi = min(lo, w.release(id)), max(hi, w.release(id))
		}
		if lo < hi {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		return "", "", ""
	}
	n := names[mix(v[0], len(names))]
	av := append([]string(nil), es[n].Avail...)
	sort.Slice(av, func(i, j int) bool {
		if a, b := w.release(av[i]), w.release(av[j]); a != b {
			return a < b
		}
		return av[i] < av[j]
	})
	to := av[len(av)-1-mix(v[1], 2)*mix(v[1]+1, len(av)-1)]
	var olds []string
	for _, id := range av {
		if w.release(id) < w.release(to) {
			olds = append(olds, id)
		}
	}
	if len(olds) == 0 {
		return "", "", ""
	}
	return n, olds[mix(v[2], len(olds))], to
}

// deltaBetween names, and makes if it has to, the delta between two builds of
// an entry; there is none if the pool has another one under its name.
func (w *World) deltaBetween(e Entry, n, from, to string) string {
	tp := w.pkgs[to]
	id := fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg", n, w.release(from), tp.Release, tp.Spec.DistRel, tp.Spec.Arch)
	if _, ok := w.last.Pool[id]; ok {
		// the pool keeps the first one: only meaningful where its end points are
		m := w.deltas[id]
		s := setOf(e.Avail)
		if !s[m.From] || !s[m.To] {
			return ""
		}
	} else {
		sp := *tp.Spec
		sp.ID = id
		sp.Filler = "delta " + from + " " + to
		w.pkgs[id] = sp.Build()
		w.deltas[id] = mapping{from, to}
	}
	return id
}

// addDelta offers a delta.
func (w *World) addDelta(r, n, id string, from ...string) {
	m := w.deltas[id]
	if x := w.last.Repos[r][n]; !contains(x.Avail, m.From) || !contains(x.Avail, m.To) {
		return
	}
	dir, err := os.MkdirTemp(w.inbox, "d")
	if err != nil {
		vh.Abort("%v", err)
	}
	defer os.RemoveAll(dir)
	path := ""
	if len(from) > 0 {
		path = from[0]
	} else {
		path = w.pkgs[id].WriteTo(dir)
	}
	e := expect{tags: "C20", repos: copyRepos(w.last.Repos), target: r, noindex: true}
	x := e.repos[r][n]
	if !contains(x.Deltas, id) {
		x.Deltas = append(x.Deltas, id)
	}
	e.repos[r][n] = x
	_, rerr := w.run(fmt.Sprintf("add delta %s to %q", id, r), e, func() error {
		return w.m.AddDelta(r, path, deltaInfo(m.From, m.To, w.release(m.From), w.release(m.To)))
	})
	if rerr == nil {
		w.checkDelta(r, n, id)
	}
}

// staged is a delta that was made and is to be added later.
type staged struct {
	repo, id, path string
	m              mapping
	pkg            *vh.Pkg
}

// doStage makes a delta, as the first half of a delta job does.
func (w *World) doStage(r string, v []int) {
	n, from, to := w.pickBuilds(r, v)
	if n == "" {
		return
	}
	metas := map[string]*libeopkg.MetaPackage{}
	o := vh.Guard(func() error {
		ms, err := w.m.GetPackages(r, n)
		for _, m := range ms {
			metas[m.GetID()] = m
		}
		return err
	})
	if o.Err != nil || o.Broken() != "" || metas[from] == nil || metas[to] == nil {
		w.Fail("C17", "%q does not give the builds of %q: %v %s", r, n, o.Err, o.Broken())
		return
	}
	path := ""
	w.making = r
	defer func() { w.making = "" }()
	_, err := w.run(fmt.Sprintf("make the delta from %s to %s in %q", from, to, r), expect{tags: "C19,C16", repos: copyRepos(w.last.Repos), target: r, noindex: true}, func() (err error) {
		path, err = w.m.CreateDelta(r, metas[from], metas[to])
		return
	})
	if w.dead || err != nil {
		return
	}
	data, err := os.ReadFile(path)
	if err != nil {
		w.Fail("C19,C16", "the delta %s cannot be read: %v", path, err)
		return
	}
	for _, s := range w.staged {
		if s.path == path {
			return // the same once more
		}
	}
	sum := sha1.Sum(data)
	p := *w.pkgs[to]
	p.ID, p.Bytes, p.SHA1 = filepath.Base(path), data, hex.EncodeToString(sum[:])
	w.staged = append(w.staged, staged{r, p.ID, path, mapping{from, to}, &p})
	w.Label("staged")
}

// doAddStaged adds a delta made before, as the other half of the job does.
func (w *World) doAddStaged(v int) {
	if len(w.staged) == 0 {
		return
	}
	i := mix(v, len(w.staged))
	s := w.staged[i]
	w.staged = append(append([]staged(nil), w.staged[:i]...), w.staged[i+1:]...)
	e := w.last.Repos[s.repo][s.pkg.Name]
	_, known := w.last.Pool[s.id]
	if !contains(e.Avail, s.m.From) || !contains(e.Avail, s.m.To) || known {
		os.Remove(s.path)
		return
	}
	w.pkgs[s.id], w.deltas[s.id] = s.pkg, s.m
	w.making = s.repo
	defer func() { w.making = "" }()
	w.addDelta(s.repo, s.pkg.Name, s.id, s.path)
	os.Remove(s.path)
	w.Label("staged:added")
}

// keepStaged looks whether what belongs to other repositories is still there.
func (w *World) keepStaged(name string, e expect) {
	var left []staged
	for _, s := range w.staged {
		b, err := os.ReadFile(s.path)
		switch {
		case err == nil && bytes.Equal(b, s.pkg.Bytes):
			left = append(left, s)
		case s.repo != e.target && !strings.Contains(name, "restart"):
			w.Fail("C16", "%s loses the delta %s that was just made in %q: %d bytes, %v", name, s.id, s.repo, len(b), err)
		}
	}
	w.staged = left
}

func (w *World) checkDelta(r, n, id string) {
	if w.dead {
		return
	}
	p := w.last.Pool[id]
	m := w.deltas[id]
	if !p.Delta || p.From != m.From || p.To != m.To || p.FromRel != w.release(m.From) || p.ToRel != w.release(m.To) {
		w.Fail("C20", "the delta %q is recorded as %+v, it leads from %s to %s", id, p, m.From, m.To)
	}
	has := false
	o := vh.Guard(func() (err error) { has, err = w.m.HasDelta(r, n, id); return })
	if o.Broken() != "" || o.Err != nil || !has {
		w.Fail("C20", "%q does not know the delta %q it lists (%v %s)", r, id, o.Err, o.Broken())
	}
}

// refTarget prefers a repository that could take a delta it does not have.
func (w *World) refTarget(st *State, v int) string {
	var rs []string
	for _, r := range sortedNames(st.Repos) {
		for _, id := range vh.SortedKeys(st.Pool) {
			if m := w.deltas[id]; st.Pool[id].Delta {
				x := st.Repos[r][w.pkgs[id].Name]
				if contains(x.Avail, m.From) && contains(x.Avail, m.To) && !contains(x.Deltas, id) {
					rs = append(rs, r)
					break
				}
			}
		}
	}
	if len(rs) == 0 || v%4 == 0 {
		return w.repoOf(st, v, true)
	}
	return rs[mix(v, len(rs))]
}

// highest is the highest release of some builds.
func (w *World) highest(ids []string) int {
	n := 0
	for _, id := range ids {
		n = max(n, w.release(id))
	}
	return n
}

// pickRef chooses a delta of the pool, one that the repository can take if there is any.
func (w *World) pickRef(r string, v int) string {
	var ids, fresh []string
	for _, id := range vh.SortedKeys(w.last.Pool) {
		if !w.last.Pool[id].Delta {
			continue
		}
		m := w.deltas[id]
		s := setOf(w.last.Repos[r][w.pkgs[id].Name].Avail)
		if len(s) == 0 && v%5 == 0 || s[m.From] && s[m.To] || s[m.From] && v%3 == 0 && w.highest(w.last.Repos[r][w.pkgs[id].Name].Avail) < w.release(m.To) {
			ids = append(ids, id)
			if len(s) > 0 && !contains(w.last.Repos[r][w.pkgs[id].Name].Deltas, id) {
				fresh = append(fresh, id)
			}
		}
	}
	if len(fresh) > 0 && v%7 != 0 {
		ids = fresh
	}
	id := "none-1-2-1-x86_64.delta.eopkg"
	if len(ids) > 0 {
		id = ids[mix(v, len(ids))]
	}
	return id
}

func (w *World) doDeltaRef(r, id string) {
	e := expect{tags: "C20", repos: copyRepos(w.last.Repos), target: r, noindex: true}
	n := ""
	if _, ok := w.last.Pool[id]; ok {
		n = w.pkgs[id].Name
	}
	if x, ok := e.repos[r][n]; !ok {
		e.err = true
	} else if !contains(x.Deltas, id) {
		x.Deltas = append(x.Deltas, id)
		e.repos[r][n] = x
		w.Label("delta-shared")
	}
	_, err := w.run(fmt.Sprintf("reuse delta %s in %q", id, r), e, func() error { return w.m.RefDelta(r, id) })
	if !e.err && err == nil {
		w.checkDelta(r, n, id)
	}
}

func (w *World) doMarkFailed(v int) {
	s := w.srcs[mix(v, len(w.srcs))]
	n := s.Names[mix(v+1, len(s.Names))]
	id := fmt.Sprintf("%s-%d-%d-1-x86_64.delta.eopkg", n, 1+v%3, 5+v%4)
	known := false
	o := vh.Guard(func() error { known = w.m.GetDeltaFailed(id); return nil })
	if o.Broken() != "" || known != w.marked[id] {
		w.Fail("C20", "asking whether the delta %q failed before gives %v (%s)", id, known, o.Broken())
	}
	w.marked[id] = true
	// what is known about it does not matter
	info := deltaInfo("a", "b", 1, 5)
	switch v / 64 % 4 {
	case 0:
		info = deltaInfo("a", "b", 0, 0)
	case 1:
		info = deltaInfo("", "", 1+v%3, 5+v%4)
	}
	w.run("mark failed "+id, expect{tags: "C20", repos: copyRepos(w.last.Repos)}, func() error {
		return w.m.MarkDeltaFailed(id, info)
	})
}

// moveHome makes the base directory a copy of itself without hard links, as
// after a restore of a backup.
func (w *World) moveHome() {
	old := w.base + ".old"
	if err := os.Rename(w.base, old); err != nil {
		vh.Abort("%v", err)
	}
	err := filepath.Walk(old, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(old, p)
		to := filepath.Join(w.base, rel)
		if fi.IsDir() {
			return os.Mkdir(to, 0o755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if err := os.WriteFile(to, b, 0o644); err != nil {
			return err
		}
		return os.Chmod(to, fi.Mode().Perm())
	})
	if err != nil {
		vh.Abort("copying the base directory: %v", err)
	}
	os.RemoveAll(old)
	w.Label("reopen:copied")
}

// files is everything below the base directory but the database.
func (w *World) files() map[string]string {
	t := vh.Tree(w.base)
	for p := range t {
		switch strings.SplitN(p, "/", 2)[0] {
		case "pool", "repo", "assets":
		default:
			delete(t, p)
		}
	}
	return t
}

// toStored gives what lays the database out in the form in which it is stored,
// from what the manager says now.
func (w *World) toStored() func() {
	s := &vh.Stored{}
	for r, es := range w.last.Repos {
		s.Put([]string{"repo"}, r, &vh.StoredRepo{ID: r})
		for n, e := range es {
			s.Put([]string{"repo", r, "package"}, n, &vh.StoredEntry{SchemaVersion: "1.0", Name: n, Available: e.Avail, Published: e.Published, Deltas: e.Deltas})
		}
	}
	o := vh.Guard(func() error {
		items, err := w.m.GetPoolItems()
		for _, i := range items {
			x := &vh.StoredItem{SchemaVersion: "1.0", Name: i.Name, RefCount: vh.As[vh.StoredItem](i).RefCount, Meta: &vh.StoredMeta{}}
			vh.Freeze(i.Meta, x.Meta)
			if d := w.last.Pool[i.Name]; d.Delta {
				x.Delta = &vh.StoredDelta{FromRelease: d.FromRel, FromID: d.From, ToRelease: d.ToRel, ToID: d.To}
			}
			s.Put([]string{"pool"}, i.Name, x)
		}
		return err
	})
	if o.Err != nil || o.Broken() != "" {
		vh.Abort("reading the pool: %v %s", o.Err, o.Broken())
	}
	for d := range w.marked {
		s.Put([]string{"deltaSkip"}, d, &vh.StoredSkip{SchemaVersion: "1.0", Name: d, Delta: vh.StoredDelta{FromRelease: 1, ToRelease: 2}})
	}
	return func() { s.Write(filepath.Join(w.base, "ferry_db")) }
}

func (w *World) doReopen(v []int) {
	quiet := w.mon == nil && !w.redo
	lay := func() {}
	if vh.PID == "C44" && quiet {
		lay = w.toStored()
		w.Also = "C44"
		defer func() {
			for _, r := range sortedNames(w.last.Repos) {
				if len(w.last.Repos[r]) > 0 {
					w.Label("stored form")
				}
				if !w.dead {
					w.doIndex(r)
				}
			}
		}()
	}
	// assets laid out for a repository that is yet to be created
	for _, r := range w.names {
		if _, ok := w.last.Repos[r]; !ok && quiet && mix(v[1], 3) == 0 && len(vh.Tree(w.assetDir(r))) == 0 {
			os.MkdirAll(w.assetDir(r), 0o755)
			if err := os.WriteFile(filepath.Join(w.assetDir(r), "distribution.xml"), []byte("<PISI><SourceName>later</SourceName></PISI>"), 0o644); err != nil {
				vh.Abort("%v", err)
			}
			w.trees = w.snapTrees()
			w.later = r
			defer func() {
				w.later = ""
				os.RemoveAll(w.assetDir(r))
				w.trees = w.snapTrees()
			}()
			break
		}
	}
	if quiet {
		// what an administrator keeps beside the assets
		for i, r := range sortedNames(w.last.Repos) {
			if mix(v[2]+i*17, 4) != 0 {
				continue
			}
			f := []string{"distribution.xml.bak", "components.xml.new", ".git/config", "eopkg-index.xml", "notes", "groups.xml~", "x.tmp"}[mix(v[0]+i*5, 7)]
			p := filepath.Join(w.assetDir(r), f)
			if os.MkdirAll(filepath.Dir(p), 0o755) != nil || os.WriteFile(p, []byte("kept"), 0o644) != nil {
				continue
			}
			w.Label("reopen:other-files")
			w.trees = w.snapTrees()
		}
	}
	files := w.files()
	pre := w.last
	for _, es := range pre.Repos {
		if len(es) > 0 {
			w.Label("reopen:nonempty")
			break
		}
	}
	w.run("restart", expect{tags: "C27", repos: copyRepos(pre.Repos)}, func() error {
		w.m.Close()
		lay()
		if quiet && mix(v[0], 4) == 0 {
			w.moveHome()
		}
		m, err := core.NewManager(w.base)
		w.m = m
		return err
	})
	if w.dead {
		return
	}
	if d := vh.DiffTree(files, w.files()); quiet && d != "" {
		w.Fail("C27", "files change over a restart: %s", d)
	}
	if a, b := fmt.Sprintf("%v", pre.Pool), fmt.Sprintf("%v", w.last.Pool); a != b {
		w.Fail("C27", "the pool changes over a restart: %s became %s", a, b)
	}
	for r, es := range pre.Repos {
		for n, x := range es {
			if y := w.last.Repos[r][n]; y.Published != x.Published {
				w.Fail("C27", "the tip of %q in %q changes over a restart from %s to %s", n, r, x.Published, y.Published)
			}
		}
	}
}

// rebuild gives a new repository the contents of an old one along another
// history and compares the two indexes byte for byte.
func (w *World) rebuild() {
	for _, r := range sortedNames(w.last.Repos) {
		es := w.last.Repos[r]
		if len(es) == 0 {
			continue
		}
		if w.tied(es) {
			continue
		}
		// at times with all the deltas that lead to the tips
		for _, n := range vh.SortedKeys(es) {
			if len(es[n].Avail) < 3 || !rapid.Bool().Draw(w.t, "all deltas") {
				continue
			}
			for _, from := range rapid.Permutation(es[n].Avail).Draw(w.t, "arrival") {
				if w.release(from) >= w.release(es[n].Published) || w.dead {
					continue
				}
				if id := w.deltaBetween(es[n], n, from, es[n].Published); id != "" {
					w.addDelta(r, n, id)
				}
			}
			w.Label("rebuilt:deltas")
		}
		if w.dead {
			return
		}
		es = w.last.Repos[r]
		w.doIndex(r)
		if w.dead {
			return
		}
		one, err := os.ReadFile(filepath.Join(w.repoDir(r), "eopkg-index.xml"))
		if err != nil {
			w.Fail("C06", "no index for %q: %v", r, err)
		}
		w.doIndex(r)
		if w.dead {
			return
		}
		if two, _ := os.ReadFile(filepath.Join(w.repoDir(r), "eopkg-index.xml")); !bytes.Equal(one, two) {
			w.Fail("C06", "indexing %q twice gives two indexes", r)
		}
		var ids, ds []string
		for _, n := range vh.SortedKeys(es) {
			ids = append(ids, es[n].Avail...)
			ds = append(ds, es[n].Deltas...)
		}
		ids = rapid.Permutation(ids).Draw(w.t, "order")
		nw := &World{Case: w.Case, t: w.t, base: filepath.Join(w.Dir(), "again-"+r), inbox: w.inbox, pkgs: w.pkgs, deltas: w.deltas}
		os.MkdirAll(nw.base, 0o755)
		nw.open("C06")
		fail := func(what string, o vh.Outcome) {
			if o.Err != nil || o.Broken() != "" {
				w.Fail("C06", "rebuilding %q: %s: %v %s", r, what, o.Err, o.Broken())
			}
		}
		fail("create", vh.Guard(func() error { return nw.m.CreateRepo("other") }))
		share := rapid.Bool().Draw(w.t, "shared deltas") && len(ds) > 0
		all := ids
		for _, d := range ds {
			if to := w.deltas[d].To; !contains(all, to) { // it leads to a build the repository has not
				all, share = append(all[:len(all):len(all)], to), true
			}
		}
		for len(ids) > 0 {
			k := min(len(ids), 1+mix(len(ids)*31, 3))
			var paths []string
			dir, _ := os.MkdirTemp(w.inbox, "re")
			for _, id := range ids[:k] {
				paths = append(paths, w.pkgs[id].WriteTo(dir))
			}
			ids = ids[k:]
			fail("import", vh.Guard(func() error { return nw.m.AddPackages("other", paths, false) }))
		}
		if len(ds) > 0 {
			ds = rapid.Permutation(ds).Draw(w.t, "dorder")
		}
		if share {
			// they come from a third repository, in yet another order
			fail("create", vh.Guard(func() error { return nw.m.CreateRepo("third") }))
			dir, _ := os.MkdirTemp(w.inbox, "re")
			var paths []string
			for _, id := range all {
				paths = append(paths, w.pkgs[id].WriteTo(dir))
			}
			fail("import", vh.Guard(func() error { return nw.m.AddPackages("third", paths, false) }))
			w.Label("rebuilt:shared")
		}
		for _, d := range ds {
			dir, _ := os.MkdirTemp(w.inbox, "re")
			p := w.pkgs[d].WriteTo(dir)
			to := "other"
			if share {
				to = "third"
			}
			fail("delta", vh.Guard(func() error {
				return nw.m.AddDelta(to, p, deltaInfo(w.deltas[d].From, w.deltas[d].To, 0, 0))
			}))
		}
		if share {
			for _, d := range rapid.Permutation(ds).Draw(w.t, "sorder") {
				fail("share delta", vh.Guard(func() error { return nw.m.RefDelta("other", d) }))
			}
		}
		for f, c := range w.assetFiles(r) {
			os.WriteFile(filepath.Join(nw.assetDir("other"), f), []byte(c), 0o644)
		}
		fail("index", vh.Guard(func() error { return nw.m.Index("other") }))
		three, _ := os.ReadFile(filepath.Join(nw.repoDir("other"), "eopkg-index.xml"))
		nw.close()
		os.RemoveAll(nw.base)
		if !bytes.Equal(one, three) {
			w.Fail("C06", "two repositories with the contents of %q have different indexes:\n%s", r, firstDiff(one, three))
		}
		w.Label("rebuilt")
	}
}

// tied says that some name has two packages of one release, between which the
// tip is not determined by the contents.
func (w *World) tied(es map[string]Entry) bool {
	for _, x := range es {
		rels := map[int]bool{}
		for _, id := range x.Avail {
			if rels[w.release(id)] {
				return true
			}
			rels[w.release(id)] = true
		}
	}
	return false
}

func firstDiff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(x []byte) string { return string(x[max(0, min(len(x), i-80)):min(len(x), i+80)]) }
	return fmt.Sprintf("at byte %d:\n%q\n%q", i, cut(a), cut(b))
}

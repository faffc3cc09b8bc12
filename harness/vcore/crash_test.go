//go:build go1.25

package vcore

import (
	"fmt"
	"maps"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
	"github.com/getsolus/ferryd/src/zverif/vos"
)

// monitor sees every file-system step of one operation.
type monitor struct {
	handler func(vos.Event) vos.Verdict
	links   int    // 1: offered files lie on another file system, 2: no hard links at all
	struck  bool   // it made a step fail
	what    string // which
	begin   func(expect)
	db      bool // a step of the database
	ran     bool
	e       expect
	err     error
}

func (m *monitor) watch(w *World, e expect, f func() error) vh.Outcome {
	m.ran, m.e = true, e
	if m.begin != nil {
		m.begin(e)
	}
	vos.Set(func(ev vos.Event) vos.Verdict {
		v := m.handler(ev)
		if ev.Op == "link" && v.Err == nil && (m.links == 2 || m.links == 1 && strings.HasPrefix(ev.Path, w.inbox)) {
			v.Err = &os.LinkError{Op: "link", Old: ev.Path, New: ev.Path2, Err: syscall.EXDEV}
		}
		return v
	})
	defer vos.Set(nil)
	o := vh.Guard(f)
	m.err = o.Err
	return o
}

// rmSet is what an interrupted operation was removing from a repository.
type rmSet struct {
	repo string
	ids  map[string]bool
}

// beingRemoved says that a missing file is the doing of an interrupted
// removal; repo is "" for the copy in the pool.
func (w *World) beingRemoved(repo, id string, refs uint64) bool {
	if w.loss == nil || !w.loss.ids[id] {
		return false
	}
	if repo == "" {
		return refs == 1
	}
	return repo == w.loss.repo
}

// losing is what leads from one state of a repository to the other.
func losing(repo string, pre, post map[string]Entry) *rmSet {
	l := &rmSet{repo, map[string]bool{}}
	for n, e := range pre {
		for _, id := range e.Avail {
			if !contains(post[n].Avail, id) {
				l.ids[id] = true
			}
		}
		for _, id := range e.Deltas {
			if !contains(post[n].Deltas, id) {
				l.ids[id] = true
			}
		}
	}
	return l
}

// between says that a repository holds nothing but what it held before or
// holds after, and all that it holds in both ("" when so).
func between(got, pre, post map[string]Entry) string {
	for n, e := range got {
		for _, id := range append(append([]string{}, e.Avail...), e.Deltas...) {
			if !holds(pre[n], id) && !holds(post[n], id) {
				return fmt.Sprintf("%s has %s", n, id)
			}
		}
	}
	for n, e := range pre {
		for _, id := range append(append([]string{}, e.Avail...), e.Deltas...) {
			if holds(post[n], id) && !holds(got[n], id) {
				return fmt.Sprintf("%s has lost %s", n, id)
			}
		}
	}
	return ""
}

func holds(e Entry, id string) bool { return contains(e.Avail, id) || contains(e.Deltas, id) }

// copyTree copies a directory, hard links as hard links.
func copyTree(from, to string) {
	inodes := map[uint64]string{}
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		switch {
		case fi.IsDir():
			return os.MkdirAll(dst, 0o755)
		case fi.Mode().IsRegular():
			st := fi.Sys().(*syscall.Stat_t)
			if st.Nlink > 1 {
				if old, ok := inodes[st.Ino]; ok {
					return os.Link(old, dst)
				}
				inodes[st.Ino] = dst
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			if err := os.WriteFile(dst, b, 0o644); err != nil {
				return err
			}
			return os.Chmod(dst, fi.Mode().Perm())
		case fi.Mode()&os.ModeSymlink != 0:
			l, err := os.Readlink(p)
			if err != nil {
				return err
			}
			return os.Symlink(l, dst)
		}
		return nil
	})
	if err != nil {
		vh.Abort("copying %s: %v", from, err)
	}
}

// on is the same world over a copy of its directory.
func (w *World) on(base, extra string) *World {
	n := &World{Case: w.Case, t: w.t, base: base, inbox: w.inbox, pkgs: maps.Clone(w.pkgs), deltas: w.deltas, marked: maps.Clone(w.marked),
		srcs: w.srcs, names: w.names, step: w.step, extra: extra, cur: extra, indent: w.indent + "    "}
	n.umask, n.modes = w.umask, maps.Clone(w.modes)
	n.open(extra)
	return n
}

// crasher takes images of the directory at steps of an operation.
type crasher struct {
	monitor
	mu     sync.Mutex
	w      *World
	rng    *rand.Rand
	per    int // images of a class
	seen   map[string]int
	images map[string][]*image
	prev   vos.Event
	n      int
	every  int // an image at every so many steps, none elsewhere
	off    int
}

type image struct {
	dir, what string
	kind      string
}

func class(ev vos.Event) string {
	switch {
	case strings.HasPrefix(ev.Op, "db-"):
		return "db"
	case strings.Contains(ev.Path, "eopkg-index") || strings.Contains(ev.Path2, "eopkg-index"):
		return "index"
	case strings.Contains(ev.Path2+ev.Path, "/assets/"):
		return "assets"
	}
	return "file"
}

func (w *World) newCrasher(seed int, per int) *crasher {
	c := &crasher{w: w, rng: rand.New(rand.NewSource(int64(seed))), per: per, seen: map[string]int{}, images: map[string][]*image{}}
	c.handler = c.at
	return c
}

func (c *crasher) rel(p string) string {
	if r, err := filepath.Rel(c.w.Dir(), p); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return p
}

func (c *crasher) at(ev vos.Event) vos.Verdict {
	c.mu.Lock()
	defer c.mu.Unlock()
	if ev.Op == "stat" || ev.Op == "db-read" || ev.Op == "db-open" {
		return vos.Verdict{} // changes nothing: the next step has the same image
	}
	c.n++
	prev := c.prev
	c.prev = ev
	cl := class(ev)
	if c.every == 0 && cl == "index" && ev.Op != "rename" && prev.Op != "rename" && c.rng.Intn(3) > 0 {
		return vos.Verdict{} // most of indexing is writing temporary files
	}
	c.seen[cl]++
	slot := -1
	if c.every > 0 {
		if c.n%c.every != c.off {
			return vos.Verdict{}
		}
		cl = "all"
		c.per = len(c.images[cl]) + 1
	}
	if len(c.images[cl]) < c.per {
		slot = len(c.images[cl])
		c.images[cl] = append(c.images[cl], nil)
	} else if k := c.rng.Intn(c.seen[cl]); k < c.per {
		slot = k
	}
	if slot < 0 {
		return vos.Verdict{}
	}
	what := fmt.Sprintf("before step %d, %s %s", c.n, ev.Op, c.rel(ev.Path))
	if ev.Path2 != "" {
		what += " to " + c.rel(ev.Path2)
	}
	if ev.Op == "db-write" && len(ev.Write) > 1 && c.rng.Intn(2) == 0 {
		n := 1 + c.rng.Intn(len(ev.Write)-1)
		return vos.Verdict{Torn: n, AtTorn: func() {
			c.mu.Lock()
			defer c.mu.Unlock()
			c.put(cl, slot, fmt.Sprintf("in step %d, after %d of %d bytes of a write to the database", c.n, n, len(ev.Write)), nil)
		}}
	}
	var alter func(dir string)
	if prev.Op == "create" && c.rng.Intn(2) == 0 {
		if r, err := filepath.Rel(c.w.base, prev.Path); err == nil && !strings.HasPrefix(r, "..") {
			n := c.rng.Float64()
			alter = func(dir string) {
				p := filepath.Join(dir, r)
				if fi, err := os.Lstat(p); err == nil && fi.Mode().IsRegular() {
					os.Truncate(p, int64(n*float64(fi.Size())))
				}
			}
			what = fmt.Sprintf("in step %d, with %.0f%% of %s written", c.n-1, 100*n, c.rel(prev.Path))
		}
	}
	if ext := map[string]string{"exec xz": ".xz", "exec zstd": ".zst"}[ev.Op]; ext != "" && c.rng.Intn(2) == 0 {
		if r, err := filepath.Rel(c.w.base, ev.Path); err == nil && ev.Path != "" && !strings.HasPrefix(r, "..") {
			alter = func(dir string) { os.WriteFile(filepath.Join(dir, r+ext), []byte("\xfd7zXZ"), 0o644) }
			what = fmt.Sprintf("in step %d, %s of %s", c.n, ev.Op, c.rel(ev.Path))
		}
	}
	c.put(cl, slot, what, alter)
	return vos.Verdict{}
}

func (c *crasher) put(cl string, slot int, what string, alter func(string)) {
	if old := c.images[cl][slot]; old != nil {
		os.RemoveAll(old.dir)
	}
	dir, err := os.MkdirTemp(c.w.Dir(), "crash")
	if err != nil {
		vh.Abort("%v", err)
	}
	vos.Still(func() { copyTree(c.w.base, dir) })
	if alter != nil {
		alter(dir)
	}
	c.images[cl][slot] = &image{dir, what, cl}
}

func (c *crasher) discard() {
	for _, is := range c.images {
		for _, i := range is {
			if i != nil {
				os.RemoveAll(i.dir)
			}
		}
	}
}

// judge opens what a crash left, holds it against what the property allows,
// and repeats the operation.
func (w *World) judge(img *image, act func(*World), pre *State, preTrees map[string]map[string]string, e expect, refused bool) {
	defer os.RemoveAll(img.dir)
	w.Op("    stopped %s", img.what)
	w.Label("crash:" + img.kind)
	if strings.HasPrefix(img.what, "in step") {
		w.Label("crash:torn-" + img.kind)
	}
	post, target := w.last, e.target
	n := w.on(img.dir, "C28")
	if n.dead {
		return
	}
	defer n.close()
	found := n.snapTrees()
	if vh.DiffTree(found[target], preTrees[target]) != "" && vh.DiffTree(found[target], w.trees[target]) != "" {
		w.Label("crash:halfway")
	}
	n.last = n.observe()
	if n.dead {
		return
	}
	n.trees = n.snapTrees()
	before, preHas := pre.Repos[target]
	after, postHas := post.Repos[target]
	n.afterwards("a stop of the process", pre, preTrees, post, target)
	n.loss = losing(target, before, after)
	n.invariants(n.last, true)
	n.loss = nil
	if n.dead {
		return
	}
	_, has := n.last.Repos[target]
	if diffRepo(n.last.Repos[target], before) != "" && diffRepo(n.last.Repos[target], after) != "" {
		w.Label("crash:half-stored")
	}
	// again
	n.redo = true
	switch {
	case has && !preHas && target != "":
		n.doDelete(target)
		if n.dead {
			return
		}
		act(n)
		w.Label("redo:afresh")
	case !has && preHas && !postHas && target != "":
		w.Label("redo:done")
		for _, d := range repoDirs {
			if _, err := os.Lstat(filepath.Join(n.base, d, target)); err == nil {
				w.Fail("C28", "after a stop of the process %q is no more, and %s/%s is still there", target, d, target)
			}
		}
		n.doCreate(target)
		return
	case !has && preHas:
		w.Label("redo:done")
	default:
		r := n.Count("refused")
		act(n)
		w.Label("redo:again")
		if n.dead {
			return
		}
		if n.Count("refused") > r && !refused {
			w.Label("redo:index")
			n.doIndex(target)
		}
	}
	if n.dead || refused {
		return
	}
	if postHas != (n.last.Repos[target] != nil) && target != "" {
		w.Fail("C28", "after repeating it there is a repository %q: %v, it should be %v", target, n.last.Repos[target] != nil, postHas)
	}
	if !w.tied(after) && !w.tied(before) {
		if d := diffRepo(n.last.Repos[target], after); d != "" {
			w.Fail("C28", "after repeating it in %q: %s", target, d)
		}
	}
}

// afterwards compares the listings and files that an interrupted or failed
// operation leaves with those before and after the undisturbed one.
func (n *World) afterwards(cause string, pre *State, preTrees map[string]map[string]string, post *State, target string) {
	tags := n.extra
	for _, r := range vh.SortedKeys(pre.Repos) {
		got, ok := n.last.Repos[r]
		if r != target {
			if !ok {
				n.Fail(tags, "%s lost the repository %q", cause, r)
			} else if d := diffRepo(got, pre.Repos[r]); d != "" {
				n.Fail(tags, "%s changed %q: %s", cause, r, d)
			}
		}
	}
	_, preHas := pre.Repos[target]
	_, postHas := post.Repos[target]
	for _, r := range vh.SortedKeys(n.last.Repos) {
		if _, ok := pre.Repos[r]; !ok && r != target {
			n.Fail(tags, "%s made the repository %q", cause, r)
		}
	}
	got, has := n.last.Repos[target]
	if target != "" {
		switch {
		case has && !preHas && !postHas:
			n.Fail(tags, "%s made the repository %q", cause, target)
		case !has && preHas && postHas:
			n.Fail(tags, "%s lost the repository %q", cause, target)
		case has:
			if d := between(got, pre.Repos[target], post.Repos[target]); d != "" {
				n.Fail(tags, "after %s in %q: %s", cause, target, d)
			}
		}
	}
	for _, r := range vh.SortedKeys(preTrees) {
		if r == target {
			continue
		}
		if d := vh.DiffTree(preTrees[r], n.trees[r]); d != "" {
			n.Fail(tags, "%s changed files of %q: %s", cause, r, d)
		}
	}
}

var quiet = map[string]bool{"nop": true, "assets": true, "noise": true, "markFailed": true}

func TestCrash(t *testing.T) {
	vh.SetRule("random histories of 4-14 repository operations; the directory is copied at random file-system and storage steps of each one (also halfway through a write), the copy opened by a new manager, compared with what the property allows, and the operation repeated on it; non-trivial when some copy had a repository that was neither as before nor as after the operation")
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		defer w.Cleanup()
		defer w.close()
		w.genUniverse()
		w.prelude()
		links := rapid.IntRange(0, 2).Draw(rt, "links")
		w.Op("hard links: %s", []string{"everywhere", "not from where packages are offered", "nowhere"}[links])
		per := 1
		hi := 14
		if vh.Thorough() {
			per, hi = 3, 20
		}
		for _, o := range genOpsN(rt, 4, hi) {
			if w.dead {
				break
			}
			if o.Kind == "pull" && o.V[2]%2 == 0 {
				w.ahead(w.repoOf(w.last, o.V[0], true), w.repoOf(w.last, o.V[1], true))
			}
			act := w.resolve(o)
			if act == nil {
				continue
			}
			if quiet[o.Kind] {
				act(w)
				continue
			}
			c := w.newCrasher(o.V[5]<<10|o.V[4], per)
			pre, preTrees := w.last, w.trees
			c.links = links
			w.mon = &c.monitor
			act(w)
			w.mon = nil
			for _, cl := range []string{"db", "file", "assets", "index"} {
				for _, i := range c.images[cl] {
					if i != nil && !w.dead && c.ran {
						w.judge(i, act, pre, preTrees, c.e, c.err != nil)
					}
				}
			}
			c.discard()
		}
		if w.Has("crash:halfway") {
			w.Nontrivial()
		}
		w.End()
	})
}

// striker makes one step of an operation fail.
type striker struct {
	monitor
	mu  sync.Mutex
	k   int // which one, counted from 1; 0 none
	n   int
	how int
	rel func(string) string
	all map[string][]int // when none fails: which steps there are of each kind
}

// kind is what a step does and to what.
func (s *striker) kind(ev vos.Event) string {
	c := class(ev)
	if c == "file" {
		c = strings.SplitN(strings.TrimPrefix(ev.Path, "/"), "/", 2)[0]
		for _, d := range []string{"pool", "repo", "inbox", "deltaBuilds", "deltaStaging"} {
			if strings.Contains(ev.Path+"/", "/"+d+"/") {
				c = d
			}
		}
	}
	return ev.Op + " " + c
}

// choose picks a step: any one, or one of a kind chosen first, for there are
// few of some.
func (s *striker) choose(rng *rand.Rand) int {
	if ks := vh.SortedKeys(s.all); rng.Intn(3) > 0 && len(ks) > 0 {
		is := s.all[ks[rng.Intn(len(ks))]]
		return is[rng.Intn(len(is))]
	}
	// questions to the database outnumber all the rest
	var is []int
	for k, l := range s.all {
		if !strings.HasPrefix(k, "db-read") {
			is = append(is, l...)
		}
	}
	if len(is) == 0 {
		return 1 + rng.Intn(s.n)
	}
	sort.Ints(is)
	return is[rng.Intn(len(is))]
}

// fails says which steps may fail: not those whose failure the code may
// rightly ignore, and not questions whether something exists.
func fails(ev vos.Event) bool {
	switch ev.Op {
	case "stat", "removeall", "chmod", "chtimes", "chown":
		return false
	case "remove":
		return strings.Contains(ev.Path, "eopkg-index")
	}
	return true
}

func newStriker(k, how int, rel func(string) string) *striker {
	s := &striker{k: k, how: how, rel: rel}
	s.handler = s.at
	return s
}

func (s *striker) at(ev vos.Event) vos.Verdict {
	if !fails(ev) {
		return vos.Verdict{}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	if s.k == 0 {
		if s.all == nil {
			s.all = map[string][]int{}
		}
		k := s.kind(ev)
		s.all[k] = append(s.all[k], s.n)
	}
	if s.n != s.k {
		return vos.Verdict{}
	}
	s.struck = true
	s.db = strings.HasPrefix(ev.Op, "db-")
	s.what = fmt.Sprintf("step %d, %s %s", s.n, ev.Op, s.rel(ev.Path))
	if ev.Path2 != "" {
		s.what += " to " + s.rel(ev.Path2)
	}
	switch {
	case (ev.Op == "create" || strings.HasPrefix(ev.Op, "exec")) && s.how%2 == 0:
		s.what += ", fails halfway"
		return vos.Verdict{NoSpace: true}
	case ev.Op == "open" && s.how%2 == 0:
		s.what += ", cannot be read"
		return vos.Verdict{NoRead: true}
	}
	s.what += ", fails"
	return vos.Verdict{Err: &os.PathError{Op: ev.Op, Path: ev.Path, Err: syscall.EIO}}
}

// afterFault is called by run when an operation reports an error because one
// of its steps failed.
func (w *World) afterFault(name string, e expect, pre *State, preTrees map[string]map[string]string, err error) {
	w.Label("fault:error")
	if w.m == nil {
		w.open(w.extra)
	}
}

// fault runs an operation on a copy of the world as it was, with one step
// failing, and then again.
func (w *World) fault(base string, k, how, links int, act func(*World), pre *State, preTrees map[string]map[string]string, e expect, refused bool) bool {
	dir, err := os.MkdirTemp(w.Dir(), "fault")
	if err != nil {
		vh.Abort("%v", err)
	}
	defer os.RemoveAll(dir)
	copyTree(base, dir)
	post, target := w.last, e.target
	n := w.on(dir, "C29")
	if n.dead {
		return false
	}
	defer n.close()
	n.last, n.trees = pre, preTrees
	s := newStriker(k, how, func(p string) string {
		if r, err := filepath.Rel(w.Dir(), p); err == nil && !strings.HasPrefix(r, "..") {
			return r
		}
		return p
	})
	n.Op("    again on a copy, step %d failing", k)
	s.links = links
	n.mon = &s.monitor
	act(n)
	n.mon = nil
	if n.dead {
		return s.struck
	}
	if !s.struck {
		return false
	}
	n.Op("    (%s)", s.what)
	w.Label("fault:" + strings.Fields(s.what)[2])
	if s.err == nil {
		// run has compared everything with the full effect
		w.Label("fault:absorbed")
		return true
	}
	if refused {
		w.Label("fault:refused-anyway")
	}
	// as it is, without a restart
	n.last = n.observe()
	if n.dead {
		return true
	}
	n.trees = n.snapTrees()
	n.afterwards("the failure", pre, preTrees, post, target)
	n.loss = losing(target, pre.Repos[target], post.Repos[target])
	n.invariants(n.last, true)
	n.loss = nil
	if n.dead {
		return true
	}
	if s.db || how&2 != 0 {
		w.Label("fault:restart")
		n.close()
		n.m, n.dead = nil, false
		n.open("C29")
		if n.dead {
			return true
		}
		lst := n.last
		n.last = n.observe()
		if n.dead {
			return true
		}
		for r := range lst.Repos {
			if d := diffRepo(n.last.Repos[r], lst.Repos[r]); d != "" && !s.db {
				n.Fail("C29,C27", "after a restart in %q: %s", r, d)
			}
		}
		n.trees = n.snapTrees()
	}
	n.redo = true
	before, preHas := pre.Repos[target]
	after, postHas := post.Repos[target]
	_, has := n.last.Repos[target]
	switch {
	case has && !preHas && target != "":
		n.doDelete(target)
		if n.dead {
			return true
		}
		act(n)
	case !has && preHas:
		w.Label("redo:done")
	default:
		r := n.Count("refused")
		act(n)
		if n.dead {
			return true
		}
		if n.Count("refused") > r && !refused {
			w.Label("redo:index")
			n.doIndex(target)
		}
	}
	if n.dead || refused {
		return true
	}
	if target != "" && postHas != (n.last.Repos[target] != nil) {
		w.Fail("C29", "after repeating it there is a repository %q: %v, it should be %v", target, n.last.Repos[target] != nil, postHas)
	}
	if !w.tied(after) && !w.tied(before) {
		if d := diffRepo(n.last.Repos[target], after); d != "" {
			w.Fail("C29", "after repeating it in %q: %s", target, d)
		}
	}
	return true
}

func TestFault(t *testing.T) {
	vh.SetRule("random histories of 4-12 repository operations; each one is run undisturbed, then on copies of the state before it with one of its file-system or storage calls failing (random ones; every kind of call), then again without the failure; non-trivial when a failure made an operation that changes packages report an error")
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		defer w.Cleanup()
		defer w.close()
		w.genUniverse()
		w.prelude()
		links := rapid.IntRange(0, 2).Draw(rt, "links")
		w.Op("hard links: %s", []string{"everywhere", "not from where packages are offered", "nowhere"}[links])
		per := 3
		if vh.Thorough() {
			per = 8
		}
		for _, o := range genOpsN(rt, 4, 12) {
			if w.dead {
				break
			}
			act := w.resolve(o)
			if act == nil {
				continue
			}
			if quiet[o.Kind] {
				act(w)
				continue
			}
			if o.V[3]%2 == 0 {
				// what a database has just opened is read from the disk
				w.close()
				w.m = nil
				w.open("C29")
				if w.dead {
					break
				}
			}
			base, err := os.MkdirTemp(w.Dir(), "before")
			if err != nil {
				vh.Abort("%v", err)
			}
			vos.Still(func() { copyTree(w.base, base) })
			c := newStriker(0, 0, nil)
			pre, preTrees := w.last, w.trees
			pkgs := maps.Clone(w.pkgs)
			w.mon = &c.monitor
			act(w)
			w.mon = nil
			if w.dead || !c.ran {
				os.RemoveAll(base)
				break
			}
			_ = pkgs
			rng := rand.New(rand.NewSource(int64(o.V[5]<<10 | o.V[4])))
			for i := 0; i < per && !w.dead && c.n > 0; i++ {
				w.fault(base, c.choose(rng), rng.Intn(4), links, act, pre, preTrees, c.e, c.err != nil)
			}
			changes := diffRepo(w.last.Repos[c.e.target], pre.Repos[c.e.target]) != ""
			if changes && w.Has("fault:error") {
				w.Label("fault:error-in-change")
			}
			os.RemoveAll(base)
		}
		if w.Has("fault:error-in-change") {
			w.Nontrivial()
		}
		w.End()
	})
}

// ahead gives the source of a pull what the target has, and something newer.
func (w *World) ahead(src, dst string) {
	ds := w.last.Repos[dst]
	if _, ok := w.last.Repos[src]; !ok || src == dst || len(ds) == 0 {
		return
	}
	var ps []*vh.Pkg
	for i, name := range vh.SortedKeys(ds) {
		tip := ds[name].Published
		if x, ok := w.last.Repos[src][name]; (!ok || w.release(x.Published) < w.release(tip)) && w.pkgs[tip] != nil {
			ps = append(ps, w.pkgs[tip])
		}
		for _, s := range w.srcs {
			for _, r := range releases {
				if i < 3 && contains(s.Names, name) && r > w.release(tip) {
					ps = append(ps, w.mkPkg(s, name, r, ""))
					break
				}
			}
		}
	}
	if len(ps) > 0 && !w.dead {
		w.doAdd(src, ps, false, "")
	}
}

// indexWatch looks at a published index at every step.
type indexWatch struct {
	path string
	seen map[string]string // contents -> first step
	open string            // a step that opens the published file for writing
	n    int
}

func (i *indexWatch) contents() string {
	b, err := os.ReadFile(i.path)
	if err != nil {
		return "absent"
	}
	return "=" + string(b)
}

func (i *indexWatch) look(ev vos.Event) {
	i.n++
	c := i.contents()
	if _, ok := i.seen[c]; !ok {
		i.seen[c] = fmt.Sprintf("before step %d, %s %s", i.n, ev.Op, filepath.Base(ev.Path))
	}
	if ev.Op == "create" || ev.Op == "openwrite" || ev.Op == "truncate" {
		a, e1 := os.Stat(ev.Path)
		f, e2 := os.Stat(i.path)
		if ev.Path == i.path || e1 == nil && e2 == nil && os.SameFile(a, f) {
			i.open = fmt.Sprintf("step %d, %s %s", i.n, ev.Op, filepath.Base(ev.Path))
		}
	}
}

// watched runs an operation and holds every moment of its target's index
// against the two it may have.
func (w *World) watched(h func(vos.Event) vos.Verdict, act func(*World)) *monitor {
	m := &monitor{}
	var iw *indexWatch
	var mu sync.Mutex
	m.begin = func(e expect) {
		iw = &indexWatch{path: filepath.Join(w.repoDir(e.target), "eopkg-index.xml"), seen: map[string]string{}}
		iw.seen[iw.contents()] = "before"
	}
	m.handler = func(ev vos.Event) vos.Verdict {
		mu.Lock()
		iw.look(ev)
		mu.Unlock()
		if h != nil {
			return h(ev)
		}
		return vos.Verdict{}
	}
	w.mon = m
	act(w)
	w.mon = nil
	if !m.ran || w.dead || m.e.target == "" {
		return m
	}
	if iw.open != "" {
		w.Fail("C08", "the published index of %q is opened for writing: %s", m.e.target, iw.open)
	}
	now := iw.contents()
	for c, when := range iw.seen {
		if when != "before" && c != now {
			w.Fail("C08", "%s the published index of %q is neither the old nor the new one: %.300q", when, m.e.target, c)
		}
	}
	if len(iw.seen) > 1 {
		w.Label("watched:replaced")
	} else {
		w.Label("watched:same")
	}
	return m
}

// indexFiles are the published index and what belongs to it.
func indexFiles(dir string) map[string]string {
	m := map[string]string{}
	for k, v := range vh.Tree(dir) {
		if strings.HasPrefix(k, "eopkg-index.xml") && !strings.Contains(k, ".new") {
			m[k] = v
		}
	}
	return m
}

func sameMap(a, b map[string]string) string { return vh.DiffTree(a, b) }

// spoil makes one asset file of a repository useless and returns how to undo it.
func (w *World) spoil(r string, v []int) (string, func()) {
	f := assetNames[mix(v[0], 3)]
	p := filepath.Join(w.assetDir(r), f)
	old, err := os.ReadFile(p)
	had := err == nil
	kind := []string{"cut short", "garbage", "empty", "a directory", "with a tag that is not closed", "with a bad character reference"}[mix(v[1], 6)]
	valid := old
	if !had {
		valid = []byte("<PISI><Groups><Group><Name>x</Name></Group></Groups></PISI>")
	}
	os.Remove(p)
	var b []byte
	switch kind {
	case "cut short":
		b = valid[:mix(v[2], max(1, len(valid)-1))]
	case "garbage":
		b = []byte(strings.Repeat("no xml at all ", 1+v[2]%9))
	case "with a tag that is not closed":
		b = []byte(strings.Replace(string(valid), "<PISI>", "<PISI><Open>", 1))
	case "with a bad character reference":
		b = []byte(strings.Replace(string(valid), "<PISI>", "<PISI><Type>&nope;</Type>", 1))
	}
	if kind == "a directory" {
		err = os.Mkdir(p, 0o755)
	} else {
		err = os.WriteFile(p, b, 0o644)
	}
	if err != nil {
		vh.Abort("%v", err)
	}
	return f + " " + kind, func() {
		os.RemoveAll(p)
		if had {
			if err := os.WriteFile(p, old, 0o644); err != nil {
				vh.Abort("%v", err)
			}
		}
		w.trees = w.snapTrees()
	}
}

func TestIndexFault(t *testing.T) {
	vh.SetRule("random histories of 2-10 operations, the target's index looked at before every file-system step; then a repository is indexed whose index is out of date, cut short at or inside every n-th step (thorough: every one) and with every n-th call failing, and with spoilt asset files; non-trivial when the new index differs from the old one and steps were cut and failed")
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		w.extra = "C08"
		defer w.Cleanup()
		defer w.close()
		w.genUniverse()
		w.prelude()
		for _, o := range genOpsN(rt, 2, 10) {
			if w.dead {
				break
			}
			act := w.resolve(o)
			if act == nil {
				continue
			}
			if quiet[o.Kind] {
				act(w)
				continue
			}
			w.watched(nil, act)
		}
		for i := 0; i < 2 && !w.dead; i++ {
			w.indexRound(rapid.SliceOfN(rapid.IntRange(0, 1023), 8, 8).Draw(rt, "round"))
		}
		if w.Has("round:changed") && w.Has("round:cut") && w.Has("round:fault") {
			w.Nontrivial()
		}
		w.End()
	})
}

func (w *World) indexRound(v []int) {
	st := w.last
	// the fullest repository, mostly
	r := w.repoOf(st, v[0], false)
	for _, x := range sortedNames(st.Repos) {
		if v[1]%5 > 0 && len(st.Repos[x]) > len(st.Repos[r]) {
			r = x
		}
	}
	if st.Repos[r] == nil {
		return
	}
	// what makes its index out of date
	for i := 0; i < 1+v[1]%2; i++ {
		w.setAssets(r, []int{mix(v[2]+i, 5), v[3] + i, v[4], v[5], v[6]})
	}
	if n, id := w.pickDelta(r, v[3:6]); id != "" {
		w.addDelta(r, n, id)
	}
	for _, s := range sortedNames(st.Repos) {
		if s != r && len(st.Repos[s]) > 0 && !w.dead {
			src, rel := w.srcRel(st, s, v[2]*11, v[3], v[4])
			w.doCopySource(s, r, src, rel, true)
			break
		}
	}
	if w.dead {
		return
	}
	base, err := os.MkdirTemp(w.Dir(), "before")
	if err != nil {
		vh.Abort("%v", err)
	}
	defer os.RemoveAll(base)
	vos.Still(func() { copyTree(w.base, base) })
	idx := func(d string) string {
		b, err := os.ReadFile(filepath.Join(d, "repo", r, "eopkg-index.xml"))
		if err != nil {
			return "absent"
		}
		return "=" + string(b)
	}
	old, oldFiles := idx(base), indexFiles(filepath.Join(base, "repo", r))
	pre, preTrees := w.last, w.trees
	stride := 9
	if vh.Thorough() {
		stride = 1
	}
	c := w.newCrasher(v[7]<<10|v[6], 1)
	c.every, c.off = stride, v[6]%stride
	steps := newStriker(0, 0, nil)
	w.Op("every step of this one:")
	w.watched(func(ev vos.Event) vos.Verdict {
		steps.handler(ev)
		return c.handler(ev)
	}, func(x *World) { x.doIndex(r) })
	defer c.discard()
	if w.dead {
		return
	}
	now := idx(w.base)
	if now != old {
		w.Label("round:changed")
	}
	for _, img := range c.images["all"] {
		if img == nil || w.dead {
			continue
		}
		w.Op("    stopped %s", img.what)
		if g := idx(img.dir); g != old && g != now {
			w.Fail("C08", "the published index of %q is then neither the old nor the new one: %.300q", r, g)
		}
		w.Label("round:cut")
		n := w.on(img.dir, "C08")
		if n.dead {
			return
		}
		n.last = n.observe()
		n.trees = n.snapTrees()
		if !n.dead {
			n.doIndex(r)
		}
		if !n.dead && idx(img.dir) != now {
			w.Fail("C08,C06", "the next indexing of %q does not give the index of the undisturbed one", r)
		}
		n.close()
		os.RemoveAll(img.dir)
	}
	// failing calls
	for k := 1 + v[5]%stride; k <= steps.n && !w.dead; k += stride {
		for how := 0; how < 2; how++ {
			w.indexFault(base, r, k, how, old, now, idx, oldFiles, pre, preTrees)
		}
	}
	// spoilt assets
	for i := 0; i < 2 && !w.dead; i++ {
		what, undo := w.spoil(r, []int{v[2] + i*3, v[3] + i, v[4]})
		files := indexFiles(w.repoDir(r))
		was := idx(w.base)
		w.Op("%s of %q: index %q", what, r, r)
		m := &monitor{}
		var iw = &indexWatch{path: filepath.Join(w.repoDir(r), "eopkg-index.xml"), seen: map[string]string{}}
		m.handler = func(ev vos.Event) vos.Verdict { iw.look(ev); return vos.Verdict{} }
		o := m.watch(w, expect{target: r}, func() error { return w.m.Index(r) })
		if b := o.Broken(); b != "" {
			w.dead = true
			w.Fail("C08,C30", "indexing %q with %s: %s", r, what, b)
			return
		}
		for g, when := range iw.seen {
			if g != was && g != idx(w.base) {
				w.Fail("C08", "%s the published index of %q is neither the old nor the new one: %.300q", when, r, g)
			}
		}
		if o.Err != nil {
			w.Label("spoilt:refused")
			if d := sameMap(files, indexFiles(w.repoDir(r))); d != "" {
				w.Fail("C08", "indexing %q with %s fails (%v) and changes %s", r, what, o.Err, d)
			}
		} else {
			w.Label("spoilt:accepted")
			b, _ := os.ReadFile(iw.path)
			if root, err := vh.ParseXML(strings.NewReader(string(b))); err != nil || root.Name != "PISI" {
				w.Fail("C08", "indexing %q with %s succeeds and publishes an index that is not well formed: %v", r, what, err)
			}
			w.checkArtefacts(r, b)
		}
		undo()
		w.doIndex(r)
	}
}

// indexFault indexes a copy with one call failing, then again.
func (w *World) indexFault(base, r string, k, how int, old, now string, idx func(string) string, oldFiles map[string]string, pre *State, preTrees map[string]map[string]string) {
	dir, err := os.MkdirTemp(w.Dir(), "fault")
	if err != nil {
		vh.Abort("%v", err)
	}
	defer os.RemoveAll(dir)
	copyTree(base, dir)
	n := w.on(dir, "C08")
	if n.dead {
		return
	}
	defer n.close()
	n.last, n.trees = pre, preTrees
	op := ""
	s := newStriker(k, how, func(p string) string { return filepath.Base(p) })
	n.Op("    again, call %d failing (%d)", k, how)
	m := n.watched(func(ev vos.Event) vos.Verdict {
		struck := s.struck
		v := s.handler(ev)
		if s.struck && !struck {
			op = ev.Op
			n.mon.struck = true
		}
		return v
	}, func(x *World) { x.doIndex(r) })
	if n.dead || !s.struck {
		return
	}
	n.Op("    (%s)", s.what)
	w.Label("round:fault")
	w.Label("fault:" + strings.Fields(op)[0])
	g := idx(dir)
	if g != old && g != now {
		w.Fail("C08", "after the failure the index of %q is neither the old nor the new one: %.300q", r, g)
	}
	d := sameMap(oldFiles, indexFiles(filepath.Join(dir, "repo", r)))
	if m.err != nil && op != "rename" && d != "" {
		w.Fail("C08", "indexing %q fails (%v) and changes %s", r, m.err, d)
	}
	if s.db {
		n.close()
		n.m = nil
		n.open("C08")
		if n.dead {
			return
		}
	}
	n.last = n.observe()
	n.trees = n.snapTrees()
	if n.dead {
		return
	}
	n.doIndex(r)
	if !n.dead && idx(dir) != now {
		w.Fail("C08,C06", "the next indexing of %q does not give the index of the undisturbed one", r)
	}
}

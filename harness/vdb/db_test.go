//go:build go1.25

// Package vdb checks the key-value store: C25 (a map per bucket) and C26 (groups of
// changes are all or nothing, also across crashes).
package vdb

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/getsolus/ferryd/src/libdb"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// Val is what gets stored.
type Val struct {
	S string
	N int64
	L []string
	B []byte
}

func (v Val) String() string { return fmt.Sprintf("{%.40q %d %q %d}", v.S, v.N, v.L, len(v.B)) }

func norm(v Val) Val {
	if len(v.L) == 0 {
		v.L = nil
	}
	if len(v.B) == 0 {
		v.B = nil
	}
	return v
}

// model: bucket path (joined by \x00, "" is the root) -> key -> value
type model map[string]map[string]Val

func (m model) clone() model {
	n := model{}
	for p, b := range m {
		n[p] = map[string]Val{}
		for k, v := range b {
			n[p][k] = v
		}
	}
	return n
}

type world struct {
	*vh.Case
	t     *rapid.T
	path  string
	db    libdb.Database
	paths [][]string
	keys  []string
	m     model
}

var namePieces = []string{"a", "b", "a-b", "-", "", "Repo", "Repos", "solus", "solus-unstable", "unstable", "un", "|bucket|", "|rootBucket|", "|rootBucket|-", "|bucket|-a", "\xff", "\xff\xff", "a\xff", "\x00", "ä", "%s", "%!d", "a b", "A", "package", "x/y"}

func genName() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "how") {
		case 0:
			return string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "raw"))
		case 1:
			return strings.Repeat("n", rapid.IntRange(1, 40).Draw(t, "len"))
		case 2, 3:
			return rapid.SampledFrom(namePieces).Draw(t, "p") + rapid.SampledFrom(namePieces).Draw(t, "q")
		}
		return rapid.SampledFrom(namePieces).Draw(t, "p")
	})
}

func reserved(k string) bool {
	return strings.HasPrefix(k, "|bucket|") || strings.HasPrefix(k, "|rootBucket|-")
}

// ambiguous: the stored format joins names with "-" (a listed known finding).
func ambiguous(p, q []string) bool {
	if len(p) != len(q) {
		return false
	}
	a, b := strings.Join(p, "-")+"-", strings.Join(q, "-")+"-"
	return strings.HasPrefix(a, b) || strings.HasPrefix(b, a)
}

func genVal() *rapid.Generator[Val] {
	return rapid.Custom(func(t *rapid.T) Val {
		v := Val{S: rapid.StringN(0, 12, -1).Draw(t, "s"), N: rapid.Int64().Draw(t, "n")}
		if rapid.IntRange(0, 3).Draw(t, "more") == 0 {
			v.L = rapid.SliceOfN(rapid.String(), 0, 3).Draw(t, "l")
			v.B = bytes.Repeat([]byte{byte(v.N)}, rapid.IntRange(0, 3000).Draw(t, "b"))
		}
		return norm(v)
	})
}

func newWorld(t *rapid.T) *world {
	w := &world{Case: vh.Begin(t), t: t, m: model{"": {}}}
	w.path = filepath.Join(w.Dir(), "db")
	names := rapid.SliceOfN(genName(), 1, 6).Draw(t, "names")
	w.paths = [][]string{{}}
	n := rapid.IntRange(1, 7).Draw(t, "npaths")
	for i := 0; i < n; i++ {
		// below one that exists, or at the top
		base := []string{}
		if rapid.Bool().Draw(t, "nest") {
			base = w.paths[rapid.IntRange(0, len(w.paths)-1).Draw(t, "base")]
		}
		if len(base) > 3 {
			base = nil
		}
		p := append(append([]string{}, base...), rapid.SampledFrom(names).Draw(t, "name"))
		ok := true
		for _, q := range w.paths {
			if ambiguous(p, q) {
				ok = false
			}
		}
		if ok {
			w.paths = append(w.paths, p)
			w.m[key(p)] = map[string]Val{}
		}
	}
	w.keys = append(rapid.SliceOfN(genName(), 1, 8).Draw(t, "keys"), "k", "k-1")
	// names of buckets make good keys
	w.keys = append(w.keys, names[0])
	w.open()
	return w
}

func key(p []string) string {
	if len(p) == 0 {
		return ""
	}
	return strings.Join(p, "\x00/") + "\x00/"
}

func (w *world) open() {
	o := vh.Guard(func() error {
		db, err := libdb.Open(w.path)
		w.db = db
		return err
	})
	w.Check(o.Broken() == "" && o.Err == nil, "C25,C26", "opening the database: %s %v", o.Broken(), o.Err)
	if w.db == nil {
		vh.Abort("no database")
	}
}

func (w *world) finish() {
	if w.db != nil {
		w.db.Close()
	}
	w.Cleanup()
}

func at(db libdb.Database, p []string) libdb.Database {
	for _, n := range p {
		db = db.Bucket([]byte(n))
	}
	return db
}

func sorted(b map[string]Val) []string {
	ks := vh.SortedKeys(b)
	sort.Strings(ks)
	return ks
}

// scan checks one bucket against the model.
func scan(db libdb.Database, p []string, want map[string]Val, keys []string) string {
	b := at(db, p)
	var got []string
	bad := ""
	err := b.ForEach(func(k, v []byte) error {
		var x Val
		if err := b.Decode(v, &x); err != nil {
			bad = fmt.Sprintf("value of %q cannot be decoded: %v", k, err)
			return nil
		}
		if y, ok := want[string(k)]; ok && !reflect.DeepEqual(norm(x), y) {
			bad = fmt.Sprintf("listing gives %v for %q, want %v", x, k, y)
		}
		got = append(got, string(k))
		return nil
	})
	if err != nil {
		return fmt.Sprintf("listing %q: %v", p, err)
	}
	if ks := sorted(want); strings.Join(ks, "\x01") != strings.Join(got, "\x01") || len(ks) != len(got) {
		return fmt.Sprintf("listing %q visits %q, want %q", p, got, ks)
	}
	if bad != "" {
		return fmt.Sprintf("bucket %q: %s", p, bad)
	}
	for _, k := range keys {
		y, ok := want[k]
		has, err := b.HasObject([]byte(k))
		if err != nil || has != ok {
			return fmt.Sprintf("bucket %q has %q: %v %v, want %v", p, k, has, err, ok)
		}
		var x Val
		err = b.GetObject([]byte(k), &x)
		if (err == nil) != ok {
			return fmt.Sprintf("bucket %q get %q: %v, want present %v", p, k, err, ok)
		}
		if ok && !reflect.DeepEqual(norm(x), y) {
			return fmt.Sprintf("bucket %q get %q gives %v, want %v", p, k, x, y)
		}
	}
	return ""
}

func (w *world) scanAll(db libdb.Database, m model) string {
	for _, p := range w.paths {
		if s := scan(db, p, m[key(p)], w.keys); s != "" {
			return s
		}
	}
	return ""
}

type change struct {
	Path int
	Key  string
	Del  bool
	V    Val
}

func (w *world) genChange() change {
	t := w.t
	return change{rapid.IntRange(0, len(w.paths)-1).Draw(t, "path"), rapid.SampledFrom(w.keys).Draw(t, "key"), rapid.IntRange(0, 2).Draw(t, "del") == 0, genVal().Draw(t, "v")}
}

func (w *world) text(c change) string {
	if c.Del {
		return fmt.Sprintf("delete %q %q", w.paths[c.Path], c.Key)
	}
	return fmt.Sprintf("put %q %q = %v", w.paths[c.Path], c.Key, c.V)
}

// do applies one change to a handle of the bucket and to the model.
func (w *world) do(b libdb.Database, c change, m model, tags string) {
	k := c.Key
	mb := m[key(w.paths[c.Path])]
	var o vh.Outcome
	if c.Del {
		o = vh.Guard(func() error { return b.DeleteObject([]byte(k)) })
	} else {
		v := c.V
		o = vh.Guard(func() error { return b.PutObject([]byte(k), &v) })
	}
	w.Check(o.Broken() == "", tags, "%s: %s", w.text(c), o.Broken())
	if reserved(k) {
		// may be refused: the database keeps these for itself
		if o.Err != nil {
			w.Label("reserved-refused")
			return
		}
	} else {
		w.Check(o.Err == nil, tags, "%s fails: %v", w.text(c), o.Err)
	}
	if o.Err != nil {
		return
	}
	if c.Del {
		if _, ok := mb[k]; ok {
			w.Label("deleted")
		}
		delete(mb, k)
	} else {
		if _, ok := mb[k]; ok {
			w.Label("overwritten")
		}
		mb[k] = c.V
	}
}

func TestKV(t *testing.T) {
	vh.SetRule("random names, nested buckets, puts, deletes, emptying, listings and restarts against a map per bucket; counts if at least two buckets held keys at once and a key was deleted or overwritten")
	rapid.Check(t, func(t *rapid.T) {
		w := newWorld(t)
		defer w.finish()
		w.Op("buckets %q keys %q", w.paths, w.keys)
		n := rapid.IntRange(1, 25).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch k := rapid.IntRange(0, 11).Draw(t, "op"); k {
			case 0:
				w.Op("restart")
				w.Label("restart")
				w.db.Close()
				w.open()
			case 1:
				p := w.paths[rapid.IntRange(0, len(w.paths)-1).Draw(t, "path")]
				w.Op("empty %q", p)
				b := at(w.db, p)
				o := vh.Guard(func() error {
					return b.Update(func(db libdb.Database) error {
						return db.ForEach(func(k, v []byte) error { return db.DeleteObject(k) })
					})
				})
				w.Check(o.Broken() == "", "C25", "emptying %q: %s", p, o.Broken())
				w.Check(o.Err == nil, "C25,C26", "emptying %q: %v", p, o.Err)
				if len(w.m[key(p)]) > 0 {
					w.Label("emptied")
				}
				w.m[key(p)] = map[string]Val{}
			case 2:
				// a listing that stops early says why
				p := w.paths[rapid.IntRange(0, len(w.paths)-1).Draw(t, "path")]
				stop := rapid.IntRange(0, 3).Draw(t, "stop")
				brk := errors.New("stop")
				c := 0
				err := at(w.db, p).View(func(v libdb.ReadOnlyView) error {
					return v.ForEach(func(k, val []byte) error {
						if c == stop {
							return brk
						}
						c++
						return nil
					})
				})
				if len(w.m[key(p)]) > stop {
					w.Check(err == brk && c == stop, "C25", "listing of %q told to stop after %d visits %d and says %v", p, stop, c, err)
				} else {
					w.Check(err == nil && c == len(w.m[key(p)]), "C25", "listing of %q visits %d and says %v", p, c, err)
				}
			case 3:
				// changes made through a bucket's own group
				p := rapid.IntRange(0, len(w.paths)-1).Draw(t, "path")
				cs := rapid.SliceOfN(rapid.Just(0), 1, 4).Draw(t, "cs")
				var list []change
				for range cs {
					c := w.genChange()
					c.Path = p
					list = append(list, c)
					w.Op("group: %s", w.text(c))
				}
				err := at(w.db, w.paths[p]).Update(func(db libdb.Database) error {
					for _, c := range list {
						w.do(db, c, w.m, "C25")
					}
					return nil
				})
				w.Check(err == nil, "C25,C26", "group fails: %v", err)
			default:
				c := w.genChange()
				w.Op("%s", w.text(c))
				w.do(at(w.db, w.paths[c.Path]), c, w.m, "C25")
			}
			used := 0
			for _, b := range w.m {
				if len(b) > 0 {
					used++
				}
			}
			if used > 1 {
				w.Label("two-buckets")
			}
			if s := w.scanAll(w.db, w.m); s != "" {
				w.Fail("C25", "%s", s)
			}
		}
		if w.Has("two-buckets") && (w.Has("deleted") || w.Has("overwritten") || w.Has("emptied")) {
			w.Nontrivial()
		}
		w.End()
	})
}

// TestKVKnown reproduces the listed finding.
func TestKVKnown(t *testing.T) {
	db, err := libdb.Open(filepath.Join(vh.Scratch(t), "db"))
	if err != nil {
		vh.Abort("%v", err)
	}
	defer db.Close()
	if err := db.Bucket([]byte("a-b")).PutObject([]byte("k"), &Val{S: "x"}); err != nil {
		t.Fatal(err)
	}
	db.Bucket([]byte("a")).ForEach(func(k, v []byte) error {
		if string(k) == "b-k" {
			vh.Known("separator-in-name")
		}
		return nil
	})
}

var errGroup = errors.New("told to fail")

func TestBatch(t *testing.T) {
	vh.SetRule("random groups of puts and deletes over nested buckets, some told to fail at a random position, with a crash image at every chosen byte of what a group writes; counts if a group of at least two changes was crashed at an inner byte or failed after a change")
	rapid.Check(t, func(t *rapid.T) {
		w := newWorld(t)
		defer w.finish()
		w.Op("buckets %q keys %q", w.paths, w.keys)
		n := rapid.IntRange(1, 8).Draw(t, "groups")
		img := 0
		for i := 0; i < n; i++ {
			size := rapid.IntRange(0, 8).Draw(t, "size")
			var cs []change
			for j := 0; j < size; j++ {
				cs = append(cs, w.genChange())
			}
			if rapid.IntRange(0, 9).Draw(t, "bulk") == 0 {
				// a big group
				p := rapid.IntRange(0, len(w.paths)-1).Draw(t, "bulkPath")
				nb := rapid.IntRange(20, 400).Draw(t, "bulkSize")
				for j := 0; j < nb; j++ {
					cs = append(cs, change{p, fmt.Sprintf("bulk%d", j), i%3 == 2, Val{S: fmt.Sprint("v", i, j)}})
				}
				size = len(cs)
				w.Label("big")
			}
			failAt := -1
			if rapid.IntRange(0, 2).Draw(t, "fail") == 0 {
				failAt = rapid.IntRange(0, size).Draw(t, "failAt")
			}
			for j, c := range cs {
				if j < 10 {
					w.Op("group %d: %s", i, w.text(c))
				}
			}
			if size > 10 {
				w.Op("group %d: and more, %d in all", i, size)
			}
			if failAt >= 0 {
				w.Op("group %d: fails after %d changes", i, failAt)
			}
			before := w.m.clone()
			after := w.m.clone()
			sizes := vh.DirSizes(w.path)
			o := vh.Guard(func() error {
				return w.db.Update(func(db libdb.Database) error {
					for j, c := range cs {
						if j == failAt {
							return errGroup
						}
						w.do(at(db, w.paths[c.Path]), c, after, "C26")
						// nobody else sees an unfinished group
						if j > 10 && j%50 != 0 {
							continue
						}
						if s := scan(w.db, w.paths[c.Path], before[key(w.paths[c.Path])], w.keys); s != "" {
							w.Fail("C26", "inside the unfinished group %d, from outside: %s", i, s)
						}
					}
					if failAt == size {
						return errGroup
					}
					return nil
				})
			})
			w.Check(o.Broken() == "", "C26", "group %d: %s", i, o.Broken())
			if failAt >= 0 {
				w.Check(o.Err == errGroup, "C26", "group %d was told to fail and says %v", i, o.Err)
				if failAt > 0 {
					w.Label("failed-inside")
				}
				after = before
			} else {
				w.Check(o.Err == nil, "C26", "group %d fails: %v", i, o.Err)
			}
			if s := w.scanAll(w.db, after); s != "" {
				w.Fail("C26", "after group %d: %s", i, s)
			}
			w.m = after
			// crash images: what the group wrote, cut at a byte
			grown := vh.DirSizes(w.path)
			var names []string
			for f, n := range grown {
				if _, ok := sizes[f]; strings.HasSuffix(f, ".log") && !ok {
					names = nil
					break
				}
				if n != sizes[f] && strings.HasSuffix(f, ".log") {
					names = append(names, f)
				}
			}
			if len(names) != 1 {
				names = []string{""}
			}
			cuts := rapid.IntRange(0, 3).Draw(t, "cuts")
			for j := 0; j <= cuts; j++ {
				f := names[0]
				cut := map[string]int64{}
				inner := false
				if f != "" && j > 0 {
					d := grown[f] - sizes[f]
					if d < 0 {
						continue
					}
					x := sizes[f] + int64(rapid.Uint64Range(0, uint64(d)).Draw(t, "at"))
					cut[f] = x
					inner = x > sizes[f] && x < grown[f]
					w.Op("crash %d bytes into what group %d writes (%d)", x-sizes[f], i, d)
				} else {
					w.Op("crash after group %d", i)
				}
				img++
				d := filepath.Join(w.Dir(), fmt.Sprintf("img%d", img))
				vh.Image(w.path, d, cut)
				var db libdb.Database
				o := vh.Guard(func() (err error) { db, err = libdb.Open(d); return err })
				w.Check(o.Broken() == "" && o.Err == nil, "C26", "opening after a crash: %s %v", o.Broken(), o.Err)
				if db == nil {
					continue
				}
				sa := w.scanAll(db, after)
				sb := w.scanAll(db, before)
				db.Close()
				os.RemoveAll(d)
				if len(cut) == 0 {
					w.Check(sa == "", "C26", "a finished group is lost in a crash: %s", sa)
				} else if sa != "" && sb != "" {
					w.Fail("C26", "a crash leaves group %d half applied: %s / %s", i, sa, sb)
				}
				if inner {
					w.Label("crash-inside")
					if len(cs) > 1 {
						w.Label("crash-inside-several")
					}
				}
			}
			if rapid.IntRange(0, 4).Draw(t, "reopen") == 0 {
				w.Op("restart")
				w.db.Close()
				w.open()
				if s := w.scanAll(w.db, w.m); s != "" {
					w.Fail("C26", "after a restart: %s", s)
				}
			}
		}
		if w.Has("crash-inside-several") || w.Has("failed-inside") {
			w.Nontrivial()
		}
		w.End()
	})
}

//go:build go1.25

package vd

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C37: what happens in the incoming directory, against what is queued.

const manifest = ".tram"

type watchCase struct {
	*vh.Case
	t        *rapid.T
	d        *vh.Daemon
	in, out  string
	open     map[string]*os.File // being written
	files    map[string]bool     // what is there: true for regular files
	expected []expectation
	n        int
}

type expectation struct {
	name string
	must bool
}

var fileStems = []string{"upload", "a b", "x%y", "ä", "日本", "-n", "..x", "a'b\"c", "new\nline", "\xff\xfe", "tram", "x.tram", "*", "[a]", "a\\b", strings.Repeat("l", 200), ".hidden", " ", "$HOME", "😀"}

var fileTails = []string{manifest, manifest, manifest, manifest, ".tram.tmp", ".tramp", ".TRAM", "tram", ".eopkg", "", ".tram~", ".tram.part", ".trам"}

func (w *watchCase) name() string {
	n := rapid.SampledFrom(fileStems).Draw(w.t, "stem") + rapid.SampledFrom(fileTails).Draw(w.t, "tail")
	if n == "." || n == ".." || n == "" {
		n = "x"
	}
	return n
}

// done notes that the named file finished being written or was moved in.
func (w *watchCase) done(name string, must bool) {
	if strings.HasSuffix(name, manifest) {
		w.expected = append(w.expected, expectation{name, must})
		w.Label("manifest arrives")
		for _, s := range []string{" ", "\n", "%", "\xff", "*", "\\", "\"", "日", "x.tram.tram"} {
			if strings.Contains(name, s) {
				w.Nontrivial()
			}
		}
	}
}

// unsure makes earlier arrivals of a name that went away uncertain.
func (w *watchCase) unsure(name string) {
	for i := range w.expected {
		if w.expected[i].name == name {
			w.expected[i].must = false
		}
	}
}

func (w *watchCase) pick() (string, bool) {
	var ns []string
	for _, n := range vh.SortedKeys(w.files) {
		if w.files[n] && w.open[n] == nil {
			ns = append(ns, n)
		}
	}
	if len(ns) == 0 {
		return "", false
	}
	return rapid.SampledFrom(ns).Draw(w.t, "which"), true
}

func (w *watchCase) free(name string) bool {
	_, taken := w.files[name]
	return !taken && w.open[name] == nil
}

func must(err error) {
	if err != nil {
		vh.Abort("%v", err)
	}
}

func (w *watchCase) step() {
	p := func(n string) string { return filepath.Join(w.in, n) }
	switch k := rapid.SampledFrom([]string{"write", "write", "write", "movein", "movein", "start", "finish", "rename", "rename", "mkdir", "movedir", "nested", "read", "append", "touch", "link", "delete", "quick", "fifo", "over", "burst", "symlink"}).Draw(w.t, "step"); k {
	case "write":
		n := w.name()
		if !w.free(n) {
			return
		}
		w.Op("write %q", n)
		must(os.WriteFile(p(n), []byte(strings.Repeat("x", rapid.IntRange(0, 9000).Draw(w.t, "size"))), 0o644))
		w.files[n] = true
		w.done(n, true)
	case "movein":
		n := w.name()
		if !w.free(n) {
			return
		}
		w.Op("move %q in", n)
		src := filepath.Join(w.out, fmt.Sprintf("f%d", w.n))
		w.n++
		must(os.WriteFile(src, []byte("x"), 0o644))
		must(os.Rename(src, p(n)))
		w.files[n] = true
		w.done(n, true)
	case "start":
		n := w.name()
		if !w.free(n) || len(w.open) > 3 {
			return
		}
		w.Op("start writing %q", n)
		f, err := os.Create(p(n))
		must(err)
		f.WriteString("half")
		w.open[n] = f
	case "finish":
		for _, n := range vh.SortedKeys(w.open) {
			w.Op("finish writing %q", n)
			w.Label("written in pieces")
			w.open[n].WriteString("rest")
			must(w.open[n].Close())
			delete(w.open, n)
			w.files[n] = true
			w.done(n, true)
			w.Nontrivial()
			break
		}
	case "rename":
		a, ok := w.pick()
		n := w.name()
		if !ok || !w.free(n) {
			return
		}
		w.Op("rename %q to %q", a, n)
		must(os.Rename(p(a), p(n)))
		w.unsure(a)
		delete(w.files, a)
		w.files[n] = true
		w.done(n, true)
		w.Nontrivial()
	case "over":
		a, ok := w.pick()
		b, ok2 := w.pick()
		if !ok || !ok2 || a == b {
			return
		}
		fa, err := os.Lstat(p(a))
		must(err)
		if fb, err := os.Lstat(p(b)); err != nil || os.SameFile(fa, fb) {
			return
		}
		w.Op("rename %q over %q", a, b)
		must(os.Rename(p(a), p(b)))
		w.unsure(a)
		delete(w.files, a)
		w.done(b, true)
	case "mkdir":
		n := w.name()
		if !w.free(n) {
			return
		}
		w.Op("mkdir %q", n)
		must(os.Mkdir(p(n), 0o755))
		w.files[n] = false
		w.Nontrivial()
	case "movedir":
		n := w.name()
		if !w.free(n) {
			return
		}
		w.Op("move directory %q in", n)
		src := filepath.Join(w.out, fmt.Sprintf("d%d", w.n))
		w.n++
		must(os.Mkdir(src, 0o755))
		must(os.WriteFile(filepath.Join(src, "inner"+manifest), []byte("x"), 0o644))
		must(os.Rename(src, p(n)))
		w.files[n] = false
		w.Nontrivial()
	case "nested":
		for _, n := range vh.SortedKeys(w.files) {
			if fi, err := os.Lstat(p(n)); err == nil && fi.IsDir() {
				in := w.name()
				w.Op("write %q inside %q", in, n)
				os.WriteFile(filepath.Join(p(n), in), []byte("x"), 0o644)
				w.Label("written in a subdirectory")
				w.Nontrivial()
				break
			}
		}
	case "read":
		if n, ok := w.pick(); ok {
			w.Op("read %q", n)
			if _, err := os.ReadFile(p(n)); err != nil {
				vh.Abort("%v", err)
			}
		}
	case "append":
		if n, ok := w.pick(); ok {
			w.Op("append to %q", n)
			f, err := os.OpenFile(p(n), os.O_WRONLY|os.O_APPEND, 0)
			must(err)
			f.WriteString("more")
			must(f.Close())
			w.done(n, true)
		}
	case "touch":
		if n, ok := w.pick(); ok {
			w.Op("touch and chmod %q", n)
			now := time.Now()
			must(os.Chtimes(p(n), now, now))
			must(os.Chmod(p(n), 0o600|os.FileMode(rapid.IntRange(0, 63).Draw(w.t, "mode"))))
		}
	case "link":
		// a link is neither written nor moved here
		n := w.name()
		a, ok := w.pick()
		if !ok || !w.free(n) || strings.HasSuffix(n, manifest) {
			return
		}
		w.Op("link %q to %q", n, a)
		must(os.Link(p(a), p(n)))
		w.files[n] = true
	case "symlink":
		n := w.name()
		if !w.free(n) || strings.HasSuffix(n, manifest) {
			return
		}
		w.Op("symbolic link %q", n)
		must(os.Symlink("nowhere", p(n)))
		w.files[n] = false
	case "delete":
		if n, ok := w.pick(); ok {
			w.Op("delete %q", n)
			must(os.Remove(p(n)))
			delete(w.files, n)
			w.unsure(n)
		}
	case "quick":
		n := w.name()
		if !w.free(n) {
			return
		}
		w.Op("write and delete %q", n)
		must(os.WriteFile(p(n), []byte("x"), 0o644))
		must(os.Remove(p(n)))
		w.done(n, false)
		w.unsure(n)
	case "fifo":
		n := w.name()
		if !w.free(n) {
			return
		}
		w.Op("a pipe named %q is used", n)
		must(syscall.Mkfifo(p(n), 0o644))
		f, err := os.OpenFile(p(n), os.O_RDWR, 0)
		must(err)
		f.Close()
		w.files[n] = false
		w.Nontrivial()
	case "burst":
		if rapid.IntRange(0, 3).Draw(w.t, "doburst") != 3 {
			return
		}
		k := rapid.IntRange(5, 150).Draw(w.t, "burst")
		w.Op("%d manifests at once", k)
		w.Label("burst")
		for i := 0; i < k; i++ {
			n := fmt.Sprintf("burst-%d-%d%s", w.n, i, manifest)
			must(os.WriteFile(p(n), []byte("x"), 0o644))
			w.files[n] = true
			w.done(n, true)
		}
		w.n++
		w.Nontrivial()
	}
}

// patience is how long an event may take.
var patience = 45 * time.Second

// settle writes a last manifest and waits until it is queued; events come in
// order, so that everything before it has been seen by then.
func (w *watchCase) settle(n string) {
	must(os.WriteFile(filepath.Join(w.in, n), []byte("x"), 0o644))
	w.Op("write %q", n)
	w.done(n, true)
	cl := client(w.d.Sock)
	defer cl.Close()
	end := time.Now().Add(patience)
	for {
		st, err := cl.GetStatus()
		if err != nil {
			alive(w.Case, w.d, "C37")
			vh.Abort("status: %v", err)
		}
		for _, j := range st.CurrentJobs {
			if strings.Contains(j.Description, n) {
				return
			}
		}
		if time.Now().After(end) {
			had := patience
			patience = 4 * time.Second // while shrinking
			w.Fail("C37", "%q was written into the incoming directory %v ago and is not queued; %d jobs are", n, had, len(st.CurrentJobs))
			return
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (w *watchCase) compare() {
	w.d.Kill()
	var got []string
	for _, j := range queued(w.d.Base) {
		if vh.JobType(j) != string(jobs.TransitProcess) || len(vh.JobParams(j)) != 1 {
			w.Fail("C37", "queued: %s", text(j))
			continue
		}
		if filepath.Dir(vh.JobParams(j)[0]) != w.in {
			w.Fail("C37", "queued: %q, the incoming directory is %q", vh.JobParams(j)[0], w.in)
		}
		got = append(got, filepath.Base(vh.JobParams(j)[0]))
	}
	// every arrival that must be there is, in order; an uncertain one may be
	possible := map[int]bool{0: true} // number of entries matched so far
	for _, e := range w.expected {
		next := map[int]bool{}
		for k := range possible {
			if k < len(got) && got[k] == e.name {
				next[k+1] = true
			}
			if !e.must {
				next[k] = true
			}
		}
		if len(next) == 0 {
			w.Fail("C37", "the arrival of %q is not queued, or not where it belongs; arrived: %v; queued: %q", e.name, w.expected, got)
			return
		}
		possible = next
	}
	if !possible[len(got)] {
		w.Fail("C37", "more is queued than arrived; arrived: %v; queued: %q", w.expected, got)
	}
}

func newWatch(t *rapid.T, c *vh.Case) *watchCase {
	d := startBlocked(c)
	w := &watchCase{Case: c, t: t, d: d, in: filepath.Join(d.Base, "incoming"), out: filepath.Join(c.Dir(), "out"), open: map[string]*os.File{}, files: map[string]bool{}}
	must(os.Mkdir(w.out, 0o777))
	return w
}

// TestWatch runs generated changes of the incoming directory.
func TestWatch(t *testing.T) {
	vh.SetRule("3-35 changes of the incoming directory of a running ferryd: files written at once or in pieces, moved in, renamed, linked, appended to, read, deleted, subdirectories with files in them, pipes, bursts, under names with any suffix and unusual characters; the queue of the killed daemon is compared with the arrivals in order. Non-trivial: a rename, a subdirectory, a pipe, a burst, a write in pieces or an unusual manifest name is part of it.")
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		w := newWatch(t, c)
		defer w.d.Kill()
		defer func() {
			for _, f := range w.open {
				f.Close()
			}
		}()
		for i, n := 0, rapid.IntRange(3, 35).Draw(t, "steps"); i < n; i++ {
			w.step()
		}
		w.settle("zz-last" + manifest)
		w.compare()
		c.End()
	})
}

// TestWatchStall has more happen than the kernel remembers while the daemon
// does not get to run; afterwards it has to go on.
func TestWatchStall(t *testing.T) {
	vh.SetRule("the daemon is stopped while more changes happen in the incoming directory than the kernel keeps events for, and continued; a manifest that arrives then is queued. Every case counts as non-trivial.")
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		w := newWatch(t, c)
		defer w.d.Kill()
		limit := 16384
		if b, err := os.ReadFile("/proc/sys/fs/inotify/max_queued_events"); err == nil {
			fmt.Sscan(string(b), &limit)
		}
		if limit > 200000 {
			limit = 200000
		}
		rounds := rapid.IntRange(1, 2).Draw(t, "rounds")
		for r := 0; r < rounds; r++ {
			k := limit/2 + rapid.IntRange(-4000, 6000).Draw(t, "k")
			c.Op("%d files are written while the daemon is stopped, the kernel keeps %d events", 2*k, limit)
			w.d.Signal(syscall.SIGSTOP)
			for i := 0; i < k; i++ {
				for _, n := range []string{"a.eopkg", "b.eopkg"} {
					f, err := os.OpenFile(filepath.Join(w.in, n), os.O_WRONLY|os.O_CREATE, 0o644)
					must(err)
					f.Close()
				}
			}
			w.d.Signal(syscall.SIGCONT)
			// give it the chance to find out
			cl := client(w.d.Sock)
			cl.GetStatus()
			cl.Close()
			time.Sleep(time.Duration(rapid.IntRange(0, 80).Draw(t, "ms")) * time.Millisecond)
			w.stalled(fmt.Sprintf("zz-after-%d%s", r, manifest))
		}
		c.Nontrivial()
		c.End()
	})
}

// stalled writes manifests until one is queued: those that arrive while the
// kernel still drops events are lost.
func (w *watchCase) stalled(n string) {
	cl := client(w.d.Sock)
	defer cl.Close()
	w.Op("write %q again and again until it is queued", n)
	end := time.Now().Add(20 * time.Second)
	for time.Now().Before(end) {
		must(os.WriteFile(filepath.Join(w.in, n), []byte("x"), 0o644))
		for i := 0; i < 20; i++ {
			st, err := cl.GetStatus()
			if err != nil {
				alive(w.Case, w.d, "C37")
				vh.Abort("status: %v", err)
			}
			for _, j := range st.CurrentJobs {
				if strings.Contains(j.Description, n) {
					return
				}
			}
			time.Sleep(5 * time.Millisecond)
		}
	}
	w.Fail("C37", "after more events than the kernel keeps, %q is written again and again for 20 s and never queued", n)
}

//go:build go1.25

package vjobs

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C38: images of the job database as a death at a generated byte of what an
// operation writes would leave it, against the states before and after.

// kjob is a job on its way.
type kjob struct {
	name    string
	claimed *jobs.JobEntry
}

// kstate is what has to survive: the queues in order, and the results.
type kstate struct {
	q [2][]string
	h [2][]string // completed, failed
}

func (s kstate) clone() kstate {
	var n kstate
	for k := 0; k < 2; k++ {
		n.q[k] = append([]string{}, s.q[k]...)
		n.h[k] = append([]string{}, s.h[k]...)
	}
	return n
}

func last100(l []string) []string {
	if len(l) > 100 {
		return l[len(l)-100:]
	}
	return l
}

func (s kstate) String() string {
	return fmt.Sprintf("queues %v %v completed %v failed %v", brief(s.q[0]), brief(s.q[1]), brief(last100(s.h[0])), brief(last100(s.h[1])))
}

func brief(l []string) []string {
	if len(l) > 12 {
		return append(append(append([]string{}, l[:5]...), fmt.Sprintf("(%d)", len(l))), l[len(l)-5:]...)
	}
	return l
}

type kworld struct {
	*vh.Case
	t    *rapid.T
	base string
	st   *jobs.JobStore
	s    kstate
	on   [2][]*kjob
	n    int
	img  int
}

func (w *kworld) open(base string) *jobs.JobStore {
	var st *jobs.JobStore
	o := vh.Guard(func() (err error) {
		st, err = jobs.NewStore(base)
		return
	})
	if o.Broken() != "" || o.Err != nil {
		w.Fail("C38", "the queue cannot be opened: %s %v", o.Broken(), o.Err)
		vh.Abort("no job store")
	}
	return st
}

// db is the directory the queue is stored in.
func (w *kworld) db() string {
	m, _ := filepath.Glob(filepath.Join(w.base, "*", "CURRENT"))
	if len(m) != 1 {
		vh.Abort("where is the job database? %v", m)
	}
	return filepath.Dir(m[0])
}

func (w *kworld) push(k int) {
	name := fmt.Sprintf("r%d", w.n)
	w.n++
	w.Op("queue %s %s", qname[k], name)
	p := w.st.PushSequentialJob
	if k == 1 {
		p = w.st.PushAsyncJob
	}
	o := vh.Guard(func() error { return p(jobs.NewIndexRepoJob(name)) })
	w.Check(o.Broken() == "" && o.Err == nil, "C38", "queueing: %s %v", o.Broken(), o.Err)
	w.s.q[k] = append(w.s.q[k], name)
	w.on[k] = append(w.on[k], &kjob{name: name})
}

func (w *kworld) claim(k int) {
	var next *kjob
	for _, j := range w.on[k] {
		if j.claimed == nil {
			next = j
			break
		}
	}
	if next == nil {
		return
	}
	w.Op("claim %s", next.name)
	f := w.st.ClaimSequentialJob
	if k == 1 {
		f = w.st.ClaimAsyncJob
	}
	var e *jobs.JobEntry
	o := vh.Guard(func() (err error) { e, err = f(); return })
	if o.Err != nil || o.Broken() != "" || e == nil || len(vh.JobParams(e)) != 1 || vh.JobParams(e)[0] != next.name {
		w.Fail("C38,C21", "%s is next, claiming gives %+v %v %s", next.name, e, o.Err, o.Broken())
		return
	}
	next.claimed = e
}

func (w *kworld) finish(k, i int) {
	var cl []int
	for x, j := range w.on[k] {
		if j.claimed != nil {
			cl = append(cl, x)
		}
	}
	if len(cl) == 0 {
		return
	}
	x := cl[i%len(cl)]
	j := w.on[k][x]
	var fail error
	h := 0
	if i%3 == 1 {
		h, fail = 1, errors.New("no")
	}
	w.Op("finish %s, error %v", j.name, fail)
	w.Label("finish")
	j.claimed.Timing.End = time.Now().UTC()
	j.claimed.VerifOutcome(j.name, fail)
	f := w.st.RetireSequentialJob
	if k == 1 {
		f = w.st.RetireAsyncJob
	}
	o := vh.Guard(func() error { return f(j.claimed) })
	w.Check(o.Broken() == "" && o.Err == nil, "C38", "finishing: %s %v", o.Broken(), o.Err)
	w.on[k] = append(append([]*kjob{}, w.on[k][:x]...), w.on[k][x+1:]...)
	for y, n := range w.s.q[k] {
		if n == j.name {
			w.s.q[k] = append(append([]string{}, w.s.q[k][:y]...), w.s.q[k][y+1:]...)
			break
		}
	}
	w.s.h[h] = append(w.s.h[h], j.name)
	if len(w.s.h[h]) > 100 {
		w.Label("wrapped")
	}
}

func (w *kworld) reset(k int) {
	w.Op("reset the %s", []string{"completed", "failed"}[k])
	f := w.st.ResetCompleted
	if k == 1 {
		f = w.st.ResetFailed
	}
	o := vh.Guard(f)
	w.Check(o.Broken() == "" && o.Err == nil, "C38", "resetting: %s %v", o.Broken(), o.Err)
	if len(w.s.h[k]) > 0 {
		w.Label("reset")
	}
	w.s.h[k] = nil
}

// read gives everything a store knows, emptying its queues.
func (w *kworld) read(st *jobs.JobStore, more int) kstate {
	var s kstate
	o := vh.Guard(func() error {
		act, err := st.ActiveJobs()
		if err != nil {
			return err
		}
		for _, j := range act {
			if !j.Timing.Begin.IsZero() {
				return fmt.Errorf("a job runs already: %+v", *j)
			}
		}
		for k, f := range []func() ([]*libferry.Job, error){st.CompletedJobs, st.FailedJobs} {
			js, err := f()
			if err != nil {
				return err
			}
			for _, j := range js {
				if j.Failed != (k == 1) {
					return fmt.Errorf("a result of the wrong kind: %+v", *j)
				}
				s.h[k] = append(s.h[k], j.Description)
			}
		}
		n := 0
		for k, f := range []func() (*jobs.JobEntry, error){st.ClaimSequentialJob, st.ClaimAsyncJob} {
			for {
				j, err := f()
				if err == jobs.ErrEmptyQueue {
					break
				}
				if err != nil {
					return err
				}
				n++
				if len(vh.JobParams(j)) != 1 || n > 3000 {
					return fmt.Errorf("a job %+v", j)
				}
				s.q[k] = append(s.q[k], vh.JobParams(j)[0])
			}
		}
		if n != len(act) {
			return fmt.Errorf("%d jobs are listed, %d can be claimed", len(act), n)
		}
		return nil
	})
	if o.Err != nil || o.Broken() != "" {
		w.Fail("C38", "reading the queue: %v %s", o.Err, o.Broken())
	}
	return s
}

// is says that what was read is the state.
func (s kstate) is(got kstate) bool {
	for k := 0; k < 2; k++ {
		if strings.Join(s.q[k], " ") != strings.Join(got.q[k], " ") {
			return false
		}
		a, b := append([]string{}, last100(s.h[k])...), append([]string{}, got.h[k]...)
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, " ") != strings.Join(b, " ") {
			return false
		}
	}
	return true
}

// TestQueueCrash kills the queue in the middle of its operations.
func TestQueueCrash(t *testing.T) {
	vh.SetRule("random histories of queueing, claiming, finishing with success or failure, resets and restarts on both queues, some with more than a hundred results; after each step images of the database are taken, as they are and cut at a generated byte of what the step wrote, and what a restart makes of them is compared with the states before and after; some histories go on from such an image. Non-trivial: a cut lies inside of what finishing a job, or a reset, wrote.")
	rapid.Check(t, func(rt *rapid.T) {
		w := &kworld{Case: vh.Begin(rt), t: rt}
		defer w.Cleanup()
		w.base = filepath.Join(w.Dir(), "base")
		os.Mkdir(w.base, 0o755)
		w.st = w.open(w.base)
		defer func() { w.st.Close() }()
		if rapid.IntRange(0, 5).Draw(rt, "long") == 3 {
			n := rapid.IntRange(90, 130).Draw(rt, "results")
			ops := w.Ops
			for i := 0; i < n; i++ {
				w.push(0)
				w.claim(0)
				w.finish(0, i%2)
			}
			w.Ops = ops
			w.Op("%d jobs were done", n)
		}
		for n := rapid.IntRange(3, 25).Draw(rt, "steps"); n > 0; n-- {
			before := w.s.clone()
			sizes := vh.DirSizes(w.db())
			k := rapid.IntRange(0, 1).Draw(rt, "queue")
			what := rapid.SampledFrom([]string{"push", "push", "push", "push", "claim", "claim", "claim", "claim", "finish", "finish", "finish", "finish", "reset", "reset", "restart"}).Draw(rt, "step")
			switch what {
			case "push":
				w.push(k)
			case "claim":
				w.claim(k)
			case "finish":
				w.finish(k, rapid.IntRange(0, 59).Draw(rt, "which"))
			case "reset":
				w.reset(k)
			case "restart":
				w.Op("restart")
				w.st.Close()
				w.st = w.open(w.base)
				w.forget()
			}
			if !w.crash(before, sizes, what) {
				break
			}
		}
		w.End()
	})
}

// forget has nobody work on anything any more.
func (w *kworld) forget() {
	for k := range w.on {
		for _, j := range w.on[k] {
			j.claimed = nil
		}
	}
}

func (w *kworld) crash(before kstate, sizes map[string]int64, what string) bool {
	db := w.db()
	grown := vh.DirSizes(db)
	log, fresh := "", false
	for f, n := range grown {
		if !strings.HasSuffix(f, ".log") {
			continue
		}
		if _, ok := sizes[f]; !ok {
			fresh = true
		} else if n > sizes[f] {
			log = f
		}
	}
	if fresh {
		log = ""
	}
	cuts := rapid.IntRange(1, 4).Draw(w.t, "cuts")
	for i := 0; i <= cuts; i++ {
		cut := map[string]int64{}
		if i > 0 {
			if log == "" {
				continue
			}
			d := grown[log] - sizes[log]
			x := int64(rapid.IntRange(0, 1<<20).Draw(w.t, "at")) * 2654435761 >> 7 % (d + 1)
			cut[log] = sizes[log] + x
			w.Op("  die %d bytes into what that writes (%d)", x, d)
			if x > 0 && x < d && (what == "finish" || what == "reset") {
				w.Nontrivial()
			}
		}
		w.img++
		b := filepath.Join(w.Dir(), fmt.Sprintf("img%d", w.img))
		if err := os.Mkdir(b, 0o755); err != nil {
			vh.Abort("%v", err)
		}
		dst := filepath.Join(b, filepath.Base(db))
		vh.Image(db, dst, cut)
		st := w.open(b)
		if st == nil {
			return false
		}
		got := w.read(st, 0)
		st.Close()
		switch {
		case w.s.is(got):
		case len(cut) == 0:
			w.Fail("C38", "a death after the step leaves %v\nit was %v", got, w.s)
		case before.is(got):
		default:
			w.Fail("C38", "a death in the middle of the step leaves %v\nbefore it was %v\nafter it %v", got, before, w.s)
		}
		os.RemoveAll(dst)
		if len(cut) > 0 && (rapid.IntRange(0, 5).Draw(w.t, "from here") == 4 || what == "reset" && i%2 == 1) {
			// go on from there
			w.Op("  go on from there")
			w.Label("went on")
			vh.Image(db, dst, cut)
			w.st.Close()
			w.base = b
			if before.is(got) && !w.s.is(got) {
				w.s = before
			}
			w.on = [2][]*kjob{}
			for k := range w.s.q {
				for _, n := range w.s.q[k] {
					w.on[k] = append(w.on[k], &kjob{name: n})
				}
			}
			w.st = w.open(w.base)
			return true
		}
		os.RemoveAll(b)
	}
	return true
}

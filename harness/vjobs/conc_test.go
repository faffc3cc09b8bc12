//go:build go1.25

package vjobs

import (
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// span is the interval of a call on the logical clock; zero means not (yet).
type span struct{ b, e int64 }

// cjob is what happened to one job.
type cjob struct {
	q                   int
	name                string
	push, claim, retire span
	claims              int
	fail                bool
}

type listing struct {
	span
	kind  string // active, done, failed
	names []string
	begun []bool
}

type empty struct {
	span
	q int
}

type reset struct {
	span
	fail bool
}

// hist is the recorded history of one run.
type hist struct {
	clock  atomic.Int64
	mu     sync.Mutex
	jobs   map[string]*cjob
	lists  []listing
	empty  []empty
	resets []reset
	errs   []string
}

func (h *hist) now() int64 { return h.clock.Add(1) }

func (h *hist) err(format string, a ...any) {
	h.mu.Lock()
	h.errs = append(h.errs, fmt.Sprintf(format, a...))
	h.mu.Unlock()
}

func nameOf(desc string) string {
	_, a, _ := strings.Cut(desc, "'")
	n, _, _ := strings.Cut(a, "'")
	return n
}

func (h *hist) list(st *jobs.JobStore, kind string) {
	var js []*libferry.Job
	var err error
	l := listing{kind: kind}
	l.b = h.now()
	switch kind {
	case "active":
		js, err = st.ActiveJobs()
	case "done":
		js, err = st.CompletedJobs()
	default:
		js, err = st.FailedJobs()
	}
	l.e = h.now()
	if err != nil {
		h.err("listing (%s) fails: %v", kind, err)
		return
	}
	for _, j := range js {
		l.names = append(l.names, nameOf(j.Description))
		l.begun = append(l.begun, !j.Timing.Begin.IsZero())
	}
	h.mu.Lock()
	h.lists = append(h.lists, l)
	h.mu.Unlock()
}

func (h *hist) pushOne(st *jobs.JobStore, q int, name string, fail bool) {
	j := jobs.NewIndexRepoJob(name)
	c := &cjob{q: q, name: name, fail: fail}
	h.mu.Lock()
	h.jobs[name] = c
	h.mu.Unlock()
	var err error
	b := h.now()
	h.mu.Lock()
	c.push.b = b
	h.mu.Unlock()
	if q == 0 {
		err = st.PushSequentialJob(j)
	} else {
		err = st.PushAsyncJob(j)
	}
	e := h.now()
	h.mu.Lock()
	c.push.e = e
	h.mu.Unlock()
	if err != nil {
		h.err("queueing fails: %v", err)
	}
}

// claimOne claims and finishes a job; false when there was none.
func (h *hist) claimOne(st *jobs.JobStore, q int, pause func()) bool {
	var j *jobs.JobEntry
	var err error
	s := span{b: h.now()}
	if q == 0 {
		j, err = st.ClaimSequentialJob()
	} else {
		j, err = st.ClaimAsyncJob()
	}
	s.e = h.now()
	if err == jobs.ErrEmptyQueue {
		h.mu.Lock()
		h.empty = append(h.empty, empty{s, q})
		h.mu.Unlock()
		return false
	}
	if err != nil {
		h.err("claiming fails: %v", err)
		return false
	}
	if len(vh.JobParams(j)) != 1 || vh.JobType(j) != string(jobs.IndexRepo) {
		h.err("a job is handed out as %s%q", vh.JobType(j), vh.JobParams(j))
		return true
	}
	h.mu.Lock()
	c := h.jobs[vh.JobParams(j)[0]]
	if c != nil {
		c.claims++
		if c.claims == 1 {
			c.claim = s
		}
	}
	h.mu.Unlock()
	if c == nil {
		h.err("%s is handed out and was never queued", vh.JobParams(j)[0])
		return true
	}
	pause()
	j.Timing.End = time.Now().UTC()
	var fe error
	if c.fail {
		fe = errors.New("failure of " + c.name)
	}
	j.VerifOutcome("Index '"+c.name+"'", fe)
	b := h.now()
	h.mu.Lock()
	c.retire.b = b
	h.mu.Unlock()
	if q == 0 {
		err = st.RetireSequentialJob(j)
	} else {
		err = st.RetireAsyncJob(j)
	}
	e := h.now()
	h.mu.Lock()
	c.retire.e = e
	h.mu.Unlock()
	if err != nil {
		h.err("finishing %s fails: %v", c.name, err)
	}
	return true
}

// judge compares the recorded history with what a queue allows.
func (h *hist) judge(c *vh.Case) {
	for _, e := range h.errs {
		c.Fail("C23", "%s", e)
	}
	var js []*cjob
	for _, j := range h.jobs {
		js = append(js, j)
	}
	sort.Slice(js, func(a, b int) bool { return js[a].push.b < js[b].push.b })
	for _, j := range js {
		c.Check(j.claims == 1, "C23", "%s was queued and is handed out %d times", j.name, j.claims)
	}
	overlap := 0
	for _, a := range js {
		for _, b := range js {
			if a == b || a.q != b.q {
				continue
			}
			// a was queued before b, so it has to be handed out before b
			if a.push.e < b.push.b && b.claim.e < a.claim.b {
				c.Fail("C23", "%s was queued %v before %s was %v, which is handed out %v before it %v", a.name, a.push, b.name, b.push, b.claim, a.claim)
			}
			if a.push.b < b.push.e && b.push.b < a.push.e {
				overlap++
			}
		}
	}
	for _, e := range h.empty {
		for _, j := range js {
			if j.q == e.q && j.push.e < e.b && j.claim.b > e.e {
				c.Fail("C23", "the %s queue is said to be empty %v while %s waits (queued %v, claimed %v)", qname[e.q], e.span, j.name, j.push, j.claim)
			}
		}
	}
	overlapped := 0
	for _, l := range h.lists {
		seen := map[string]int{}
		for i, n := range l.names {
			seen[n]++
			j := h.jobs[n]
			if j == nil {
				c.Fail("C23,C33", "the %s list has a job %q that never was", l.kind, n)
				continue
			}
			switch l.kind {
			case "active":
				c.Check(j.push.b < l.e && j.retire.e > l.b, "C23,C33", "%s is listed as unfinished %v, it was queued %v and finished %v", n, l.span, j.push, j.retire)
				if l.begun[i] {
					c.Check(j.claim.b < l.e, "C23,C33", "%s is listed as begun %v, it was claimed %v", n, l.span, j.claim)
				} else {
					c.Check(j.claim.e > l.b, "C23,C33", "%s is listed as waiting %v, it was claimed %v", n, l.span, j.claim)
				}
			case "done", "failed":
				c.Check(j.fail == (l.kind == "failed"), "C23,C22", "%s is listed as %s and is not", n, l.kind)
				c.Check(j.retire.b < l.e, "C23,C22", "%s is listed as %s %v before it is finished %v", n, l.kind, l.span, j.retire)
				for _, r := range h.resets {
					c.Check(r.fail != (l.kind == "failed") || r.e > l.b || j.retire.e > r.b, "C23,C22", "%s is listed %v after a reset %v, it was finished %v", n, l.span, r.span, j.retire)
				}
			}
		}
		for _, j := range js {
			if seen[j.name] > 1 {
				c.Fail("C23", "%s is listed %d times as %s", j.name, seen[j.name], l.kind)
			}
			if seen[j.name] > 0 {
				continue
			}
			switch l.kind {
			case "active":
				c.Check(!(j.push.e < l.b && j.retire.b > l.e), "C23,C33", "%s was unfinished throughout (queued %v, finished %v) and is not listed %v", j.name, j.push, j.retire, l.span)
			case "done", "failed":
				if j.fail != (l.kind == "failed") || j.retire.e > l.b {
					continue
				}
				// finished before: only a reset since, or a hundred others can have removed it
				may := false
				for _, r := range h.resets {
					if r.fail == j.fail && r.e > j.retire.b && r.b < l.e {
						may = true
					}
				}
				later := 0
				for _, k := range js {
					if k.fail == j.fail && k.retire.e > j.retire.b && k.retire.b < l.e && k != j {
						later++
					}
				}
				c.Check(may || later >= 100, "C23,C22", "%s was finished %v, %d others since and no reset, and is not among the %s ones %v", j.name, j.retire, later, l.kind, l.span)
			}
		}
		if l.kind == "active" && len(l.names) > 0 {
			overlapped++
		}
	}
	if overlap > 0 {
		c.Label("concurrent-pushes")
	}
	if overlapped > 0 {
		c.Label("listed-while-busy")
	}
	cc := 0
	for i, a := range js {
		for _, b := range js[i+1:] {
			if a.q == b.q && a.claim.b < b.claim.e && b.claim.b < a.claim.e {
				cc++
			}
		}
	}
	if cc > 0 {
		c.Label("concurrent-claims")
	}
	if overlap > 0 && cc > 0 && overlapped > 0 {
		c.Nontrivial()
	}
}

func TestConcurrent(t *testing.T) {
	vh.SetRule("concurrent producers, workers, readers and resets on one job store, the recorded intervals of all calls are checked against what a pair of queues allows; counts if pushes overlapped, claims overlapped and a non-empty queue was listed meanwhile")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		prod := rapid.IntRange(1, 6).Draw(rt, "producers")
		per := rapid.IntRange(2, 20).Draw(rt, "jobs per producer")
		workers := rapid.IntRange(1, 5).Draw(rt, "workers")
		readers := rapid.IntRange(0, 3).Draw(rt, "readers")
		resets := rapid.IntRange(0, 2).Draw(rt, "resets")
		both := rapid.Bool().Draw(rt, "both queues")
		pre := rapid.IntRange(0, 30).Draw(rt, "queued before")
		seed := rapid.Int64().Draw(rt, "seed")
		procs := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(rt, "procs")
		jitter := rapid.SampledFrom([]int{0, 1, 2}).Draw(rt, "jitter")
		c.Op("%d producers of %d jobs (%d before), %d workers, %d readers, %d resets, both queues %v, %d procs, jitter %d, seed %d", prod, per, pre, workers, readers, resets, both, procs, jitter, seed)
		if procs > 0 {
			defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(procs))
		}
		st, err := jobs.NewStore(c.Dir())
		if err != nil {
			vh.Abort("%v", err)
		}
		h := &hist{jobs: map[string]*cjob{}}
		rnd := rand.New(rand.NewSource(seed))
		pause := func(r *rand.Rand) func() {
			return func() {
				switch {
				case jitter == 0:
				case r.Intn(3) == 0:
					runtime.Gosched()
				case jitter == 2 && r.Intn(3) == 0:
					time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
				}
			}
		}
		for i := 0; i < pre; i++ {
			h.pushOne(st, rnd.Intn(2), fmt.Sprintf("pre%d", i), rnd.Intn(2) == 0)
		}
		o := vh.Guard(func() error {
			var pwg, wg sync.WaitGroup
			var stop atomic.Bool
			start := make(chan struct{})
			role := func(wg *sync.WaitGroup, f func(r *rand.Rand, pause func())) {
				r := rand.New(rand.NewSource(rnd.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							h.err("panic: %v", p)
						}
					}()
					<-start
					f(r, pause(r))
				}()
			}
			for p := 0; p < prod; p++ {
				role(&pwg, func(r *rand.Rand, pause func()) {
					for i := 0; i < per; i++ {
						q := 1
						if both {
							q = r.Intn(2)
						}
						h.pushOne(st, q, fmt.Sprintf("p%d-%d", p, i), r.Intn(3) == 0)
						pause()
					}
				})
			}
			for w := 0; w < workers; w++ {
				role(&wg, func(r *rand.Rand, pause func()) {
					for {
						last := stop.Load()
						got := h.claimOne(st, 1, pause)
						if w == 0 && h.claimOne(st, 0, pause) {
							got = true
						}
						if !got {
							if last {
								return
							}
							runtime.Gosched()
						}
					}
				})
			}
			for w := 0; w < readers; w++ {
				role(&wg, func(r *rand.Rand, pause func()) {
					for i := 0; i < 60 && !stop.Load(); i++ {
						h.list(st, []string{"active", "active", "done", "failed"}[r.Intn(4)])
						pause()
					}
				})
			}
			for w := 0; w < resets; w++ {
				role(&wg, func(r *rand.Rand, pause func()) {
					time.Sleep(time.Duration(r.Intn(1500)) * time.Microsecond)
					f := r.Intn(2) == 0
					s := span{b: h.now()}
					var err error
					if f {
						err = st.ResetFailed()
					} else {
						err = st.ResetCompleted()
					}
					s.e = h.now()
					if err != nil {
						h.err("a reset fails: %v", err)
					}
					h.mu.Lock()
					h.resets = append(h.resets, reset{s, f})
					h.mu.Unlock()
				})
			}
			close(start)
			pwg.Wait()
			stop.Store(true)
			wg.Wait()
			return nil
		})
		c.Check(o.Broken() == "", "C23", "%s", o.Broken())
		if o.Broken() == "" {
			h.mu.Lock()
			stuck := len(h.errs)
			h.mu.Unlock()
			if stuck == 0 {
				for q := 0; q < 2; q++ {
					for n := 0; h.claimOne(st, q, func() {}) && n < 300; n++ {
					}
				}
				for _, k := range []string{"active", "done", "failed"} {
					h.list(st, k)
				}
			}
			st.Close()
		}
		h.judge(c)
		c.End()
	})
}

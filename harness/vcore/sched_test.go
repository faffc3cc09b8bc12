//go:build go1.25

package vcore

import (
	"bytes"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
	"github.com/getsolus/ferryd/src/zverif/vos"
)

// C47: operations on repositories are carried out one at a time, in the order
// they were asked for, as soon as the daemon is free.

// slow makes the steps of an operation take (virtual) time.
type slow struct {
	mu      sync.Mutex
	base    string
	waits   []int
	n, busy int
	abort   chan bool
	overlap string
	at      string
	seen    []seenStep
	off     bool
	pushing bool
}

type seenStep struct {
	when time.Time
	what string
}

func (s *slow) handler(ev vos.Event) vos.Verdict {
	s.mu.Lock()
	if strings.HasPrefix(ev.Op, "db-") {
		// a job is handed out while another one is at work (not: tables are merged)
		if s.busy > 0 && !s.pushing && strings.HasSuffix(ev.Path, ".log") && s.overlap == "" && bytes.Contains(ev.Write, []byte("Sync")) {
			s.overlap = s.at
			close(s.abort)
		}
		s.mu.Unlock()
		return vos.Verdict{}
	}
	rel, err := filepath.Rel(s.base, ev.Path)
	if err != nil || strings.HasPrefix(rel, "..") || strings.HasPrefix(rel, "ferry_db") || strings.HasPrefix(rel, "job_db") || s.off {
		s.mu.Unlock()
		return vos.Verdict{}
	}
	what := ev.Op + " " + rel
	s.seen = append(s.seen, seenStep{time.Now(), what})
	d := s.waits[s.n%len(s.waits)]
	s.n++
	if d == 0 || s.overlap != "" {
		s.mu.Unlock()
		return vos.Verdict{}
	}
	s.busy++
	s.at = what
	s.mu.Unlock()
	select {
	case <-time.After(time.Duration(d) * time.Millisecond):
	case <-s.abort:
	}
	s.mu.Lock()
	s.busy--
	s.seen = append(s.seen, seenStep{time.Now(), what})
	s.mu.Unlock()
	return vos.Verdict{}
}

// steps is how many were seen.
func (s *slow) steps() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.seen)
}

func TestSchedule(t *testing.T) {
	vh.SetRule("1-5 rounds of 1-6 jobs of every kind, some malformed, queued at random moments of virtual time while the real workers (1 and 2-4) are at work and every n-th step of an operation takes up to 4 s; the daemon's processor is ended and begun anew at random moments; non-trivial when a job was queued, or the processor ended, while another job was at work")
	ks := []string{"add", "add", "add", "create", "create", "delete", "clone", "pull", "removeSource", "copySource", "trimPackages", "trimObsolete", "index", "broken", "transit"}
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		a, b := newTwinWorld(c, "a"), newTwinWorld(c, "b")
		a.t = rt
		a.genUniverse()
		b.shareUniverse(a)
		type asked struct {
			op
			gap int
		}
		var rounds [][]asked
		for _, n := range rapid.SliceOfN(rapid.IntRange(1, 6), 1, 5).Draw(rt, "rounds") {
			var bt []asked
			for i := 0; i < n; i++ {
				o := op{Kind: rapid.SampledFrom(ks).Draw(rt, "kind")}
				for j := range o.V {
					o.V[j] = rapid.IntRange(0, 1023).Draw(rt, "v")
				}
				bt = append(bt, asked{o, rapid.SampledFrom([]int{1, 3, 40, 700, 2100, 2600, 6000}).Draw(rt, "gap")})
			}
			rounds = append(rounds, bt)
		}
		s := &slow{base: a.base, waits: rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 30, 900, 2500, 4000}), 3, 9).Draw(rt, "waits")}
		stops := rapid.IntRange(0, 31).Draw(rt, "stops")
		workers := rapid.IntRange(2, 4).Draw(rt, "workers")
		busy := false
		vh.Bubble(t, c, "C47", func() {
			s.abort = make(chan bool)
			tw := &twin{a: a, b: b}
			a.open("C24")
			b.open("C24")
			defer a.close()
			defer b.close()
			tw.openJobs()
			defer tw.closeJobs()
			vos.Set(s.handler)
			defer vos.Set(nil)
			var begun []time.Time
			begin := func() {
				tw.proc = jobs.NewProcessor(a.m, tw.store, workers)
				begun = append(begun, time.Now())
				tw.proc.Begin()
			}
			var pushed []time.Time
			byTime := map[int64]string{}
			look := func() (active []*libferry.Job) {
				synctest.Wait()
				active, err := tw.store.ActiveJobs()
				if err != nil {
					c.Fail("C47,C33", "listing the queue: %v", err)
				}
				done, failed := tw.history()
				if len(active)+len(done)+len(failed) != len(pushed) {
					c.Fail("C47", "%d jobs were queued; %d are listed, %d are done and %d have failed", len(pushed), len(active), len(done), len(failed))
				}
				n := 0
				for _, j := range active {
					if !j.Timing.Begin.IsZero() {
						n++
					}
				}
				if n > 1 {
					c.Fail("C47", "%d jobs run at the same time", n)
				}
				s.mu.Lock()
				o := s.overlap
				s.mu.Unlock()
				if o != "" {
					c.Fail("C47", "another job is begun while one is at work (%s)", o)
				}
				if n > 0 {
					busy = true
				}
				return active
			}
			observe := func() {
				s.off = true
				a.last = a.observe()
				s.off = false
			}
			begin()
			push := func(text string, j *jobs.JobEntry, gap int, malformed bool) {
				time.Sleep(time.Duration(gap) * time.Millisecond)
				look()
				c.Op("%d ms later: %s", gap, text)
				now := time.Now()
				pushed = append(pushed, now)
				byTime[now.UnixNano()] = text
				var err error
				s.pushing = true
				o := vh.Guard(func() error {
					if malformed {
						err = tw.store.PushSequentialJob(j) // of no kind the daemon knows
					} else {
						err = tw.proc.PushJob(j)
					}
					return err
				})
				s.pushing = false
				if o.Broken() != "" || err != nil {
					c.Fail("C47", "queueing %s: %v %s", text, err, o.Broken())
				}
			}
			first := []op{{Kind: "create", V: [6]int{0}}, {Kind: "create", V: [6]int{3}}, {Kind: "add", V: [6]int{0, 2, 5, 7, 9, 0}}}
			observe()
			for _, o := range first {
				p := tw.plan(o)
				push(p.text, p.job, 1, false)
			}
			drain := func() {
				for i := 0; len(look()) > 0; i++ {
					if i > 4000 {
						c.Fail("C47", "the queue does not empty")
					}
					time.Sleep(3 * time.Second)
				}
			}
			drain()
			observe()
			for bi, bt := range rounds {
				for _, o := range bt {
					if o.Kind == "transit" {
						p := filepath.Join(a.inbox, "none.tram")
						push("an upload that is gone", jobs.NewTransitJob(p), o.gap, false)
						continue
					}
					p := tw.plan(o.op)
					push(p.text, p.job, o.gap, p.direct == nil)
					if stops>>(bi%5)&1 == 1 && o.V[5]%3 == 0 {
						look()
						c.Op("the processor is ended and begun anew")
						tw.proc.Close()
						n := s.steps()
						time.Sleep(20 * time.Second)
						if s.steps() != n {
							c.Fail("C47", "an operation goes on after the processor was ended")
						}
						c.Label("ended")
						tw.proc = nil
						s.off = true
						tw.closeJobs()
						a.close()
						a.open("C47")
						tw.openJobs()
						s.off = false
						begin()
					}
				}
				drain()
				// what was looked at while jobs ran may be half done
				observe()
			}
			// in order, one after another, at once
			done, failed := tw.history()
			all := append(append([]*libferry.Job{}, done...), failed...)
			sort.SliceStable(all, func(i, j int) bool { return all[i].Timing.Begin.Before(all[j].Timing.Begin) })
			var end time.Time
			for i, j := range all {
				text := byTime[j.Timing.Queued.UnixNano()]
				if i < len(pushed) && !j.Timing.Queued.Equal(pushed[i]) {
					c.Fail("C47", "%q runs as job %d; it was not the %d. to be queued", text, i+1, i+1)
				}
				if j.Timing.Begin.Before(end) {
					c.Fail("C47", "%q begins %v before the one before it ends", text, end.Sub(j.Timing.Begin))
				}
				if j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin) {
					c.Fail("C47,C22", "%q was queued, began and ended at %v", text, j.Timing)
				}
				free := j.Timing.Queued
				if end.After(free) {
					free = end
				}
				for _, x := range begun {
					if x.After(free) && !x.After(j.Timing.Begin) {
						free = x
					}
				}
				if w := j.Timing.Begin.Sub(free); w > 3*time.Second {
					c.Fail("C47", "%q waits for %v though nothing else is to be done", text, w)
				}
				end = j.Timing.End
			}
			for _, x := range s.seen {
				in := false
				for _, j := range all {
					in = in || !x.when.Before(j.Timing.Begin) && !x.when.After(j.Timing.End)
				}
				if !in {
					c.Fail("C47", "%s happens while no job runs", x.what)
				}
			}
		})
		if busy {
			c.Nontrivial()
		}
		c.End()
	})
}

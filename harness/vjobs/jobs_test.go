//go:build go1.25

// Package vjobs checks the job queue (C21), the history of results (C22) and
// their concurrent use (C23).
package vjobs

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// qjob is a job as the model knows it.
type qjob struct {
	n       int
	typ     jobs.JobType
	params  []string
	queued  time.Time
	claimed *jobs.JobEntry
	again   bool // was claimed before a restart
}

func (q *qjob) String() string { return fmt.Sprintf("#%d %s%q", q.n, q.typ, q.params) }

type qworld struct {
	*vh.Case
	t    *rapid.T
	base string
	st   *jobs.JobStore
	q    [2][]*qjob // sequential, async
	n    int
	done int
}

var qname = []string{"sequential", "async"}

func (w *qworld) open() {
	o := vh.Guard(func() error {
		st, err := jobs.NewStore(w.base)
		w.st = st
		return err
	})
	if o.Broken() != "" || o.Err != nil || w.st == nil {
		w.Fail("C21,C22", "opening the job store: %s %v", o.Broken(), o.Err)
		vh.Abort("no job store")
	}
}

func genStr(t *rapid.T, l string) string {
	switch rapid.IntRange(0, 5).Draw(t, l+"how") {
	case 0:
		return rapid.String().Draw(t, l)
	case 1:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, l))
	case 2:
		return ""
	}
	return rapid.SampledFrom([]string{"unstable", "shannon", "nano", "a b", "x-y", "größe", "/var/tmp/x.eopkg"}).Draw(t, l)
}

// genJob gives a job made by the constructors, or one of odd parameters.
func genJob(t *rapid.T) (*jobs.JobEntry, string) {
	a, b, c := genStr(t, "a"), genStr(t, "b"), genStr(t, "c")
	n := rapid.IntRange(-2, 1<<30).Draw(t, "n")
	f := rapid.Bool().Draw(t, "f")
	switch rapid.IntRange(0, 14).Draw(t, "kind") {
	case 0:
		var ps []string
		for i := rapid.IntRange(1, 40).Draw(t, "pkgs"); i > 0; i-- {
			ps = append(ps, fmt.Sprintf("/x/%s/%d.eopkg", b, i))
		}
		return jobs.NewBulkAddJob(a, ps), ""
	case 1:
		return jobs.NewCloneRepoJob(a, b, f), ""
	case 2:
		return jobs.NewCopySourceJob(a, b, c, n, f), ""
	case 3:
		return jobs.NewCreateRepoJob(a), ""
	case 4:
		return jobs.NewDeleteRepoJob(a), ""
	case 5:
		return jobs.NewDeltaJob(a, b), ""
	case 6:
		return jobs.NewDeltaIndexJob(a, b), ""
	case 7:
		return jobs.NewDeltaRepoJob(a), ""
	case 8:
		return jobs.NewPullRepoJob(a, b), ""
	case 9:
		return jobs.NewRemoveSourceJob(a, b, n), ""
	case 10:
		return jobs.NewTransitJob(a), ""
	case 11:
		return jobs.NewTrimObsoleteJob(a), ""
	case 12:
		return jobs.NewTrimPackagesJob(a, n), ""
	case 13:
		return vh.As[jobs.JobEntry](vh.StoredJob{Type: a, Params: []string{b, c}}), "odd"
	}
	return jobs.NewIndexRepoJob(a), ""
}

func (w *qworld) push(k int, j *jobs.JobEntry) {
	q := &qjob{n: w.n, typ: jobs.JobType(vh.JobType(j)), params: append([]string(nil), vh.JobParams(j)...)}
	w.n++
	t0 := time.Now().UTC()
	o := vh.Guard(func() error {
		if k == 0 {
			return w.st.PushSequentialJob(j)
		}
		return w.st.PushAsyncJob(j)
	})
	w.Check(o.Broken() == "" && o.Err == nil, "C21", "queueing %v: %s %v", q, o.Broken(), o.Err)
	q.queued = j.Timing.Queued
	w.Check(!q.queued.Before(t0.Add(-time.Minute)) && !q.queued.After(time.Now().Add(time.Minute)), "C21", "%v was queued at %v, it says %v", q, t0, q.queued)
	w.q[k] = append(w.q[k], q)
}

func sameParams(a, b []string) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func (w *qworld) claim(k int) {
	var want *qjob
	for _, q := range w.q[k] {
		if q.claimed == nil {
			want = q
			break
		}
	}
	w.Op("claim %s", qname[k])
	var j *jobs.JobEntry
	o := vh.Guard(func() (err error) {
		if k == 0 {
			j, err = w.st.ClaimSequentialJob()
		} else {
			j, err = w.st.ClaimAsyncJob()
		}
		return
	})
	w.Check(o.Broken() == "", "C21", "claiming: %s", o.Broken())
	if want == nil {
		w.Check(o.Err == jobs.ErrEmptyQueue && j == nil, "C21", "nothing waits in the %s queue and claiming gives %+v, %v", qname[k], j, o.Err)
		return
	}
	if o.Err != nil || j == nil {
		w.Fail("C21", "%v is next in the %s queue and claiming gives %v", want, qname[k], o.Err)
		return
	}
	if jobs.JobType(vh.JobType(j)) != want.typ || !sameParams(vh.JobParams(j), want.params) || !j.Timing.Queued.Equal(want.queued) {
		w.Fail("C21", "%v (queued %v) is next in the %s queue and claiming gives %s%q (queued %v)", want, want.queued, qname[k], vh.JobType(j), vh.JobParams(j), j.Timing.Queued)
	}
	w.Check(!j.Timing.Begin.IsZero() && j.Timing.End.IsZero(), "C21,C22", "%v is claimed with the times %+v", want, j.Timing)
	w.Check(vh.As[vh.StoredJob](j).Claimed, "C21", "%v is handed out but not marked as claimed", want)
	want.claimed = j
	if want.again {
		w.Label("claimed-again")
	}
	if want.n < w.n-1 {
		w.Label("claimed-with-others-behind")
	}
}

func (w *qworld) retire(k int, i int) {
	var cl []int
	for x, q := range w.q[k] {
		if q.claimed != nil {
			cl = append(cl, x)
		}
	}
	if len(cl) == 0 {
		return
	}
	x := cl[i%len(cl)]
	if x > 0 {
		w.Label("retired-out-of-order")
	}
	if x == len(w.q[k])-1 && x > 0 {
		w.Label("retired-the-newest")
	}
	q := w.q[k][x]
	w.Op("finish %s %v", qname[k], q)
	q.claimed.Timing.End = time.Now().UTC()
	o := vh.Guard(func() error {
		if k == 0 {
			return w.st.RetireSequentialJob(q.claimed)
		}
		return w.st.RetireAsyncJob(q.claimed)
	})
	w.Check(o.Broken() == "" && o.Err == nil, "C21", "finishing %v: %s %v", q, o.Broken(), o.Err)
	w.q[k] = append(w.q[k][:x], w.q[k][x+1:]...)
	w.done++
}

// toStored is the database that holds what the model holds.
func (w *qworld) toStored(first uint64) *vh.Stored {
	s := &vh.Stored{}
	for k, b := range []string{"Sync", "Async"} {
		for i, q := range w.q[k] {
			j := &vh.StoredJob{Type: string(q.typ), Params: q.params, Claimed: q.claimed != nil, Timing: vh.StoredTiming{Queued: q.queued}}
			if q.claimed != nil {
				j.Timing.Begin = q.claimed.Timing.Begin
			}
			s.Put([]string{b}, vh.Seq(first+uint64(i)), j)
		}
	}
	rs := make([]vh.StoredResult, min(w.done, 100))
	for i := range rs {
		rs[i] = vh.StoredResult{Description: "done", Timing: vh.StoredTiming{Queued: time.Unix(int64(i), 0)}}
	}
	if w.done > 0 {
		s.PutResults("CompletedSuccess", rs, uint64(w.done-1)%100)
	}
	return s
}

func (w *qworld) check() {
	js, err := w.st.ActiveJobs()
	w.Check(err == nil, "C21,C33", "listing the queue: %v", err)
	if err != nil {
		return
	}
	key := func(q time.Time, begun bool) string { return fmt.Sprint(q.UnixNano(), begun) }
	var want, got []string
	for k := range w.q {
		for _, q := range w.q[k] {
			want = append(want, key(q.queued, q.claimed != nil))
		}
	}
	for _, j := range js {
		got = append(got, key(j.Timing.Queued, !j.Timing.Begin.IsZero()))
		w.Check(!j.Failed && j.Error == "", "C33", "an unfinished job is listed as %+v", *j)
	}
	sort.Strings(want)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		w.Fail("C21,C33", "%d jobs are unfinished, %d are listed: %v, want %v", len(want), len(got), got, want)
	}
	d, err := w.st.CompletedJobs()
	f, err2 := w.st.FailedJobs()
	wd := min(w.done, 100)
	w.Check(err == nil && err2 == nil && len(d) == wd && len(f) == 0, "C22,C21", "%d jobs were finished, %d are recorded as completed and %d as failed (%v %v)", w.done, len(d), len(f), err, err2)
}

func TestQueue(t *testing.T) {
	vh.SetRule("random histories of queueing, claiming, finishing and restarts on both queues against a list model, with bursts of up to 300 queued jobs; counts if a job was claimed while others waited behind it and the store was reopened with unfinished jobs")
	rapid.Check(t, func(rt *rapid.T) {
		w := &qworld{Case: vh.Begin(rt), t: rt}
		defer w.Cleanup()
		w.base = w.Dir()
		w.open()
		defer func() { w.st.Close() }()
		n := rapid.IntRange(4, 40).Draw(rt, "n")
		big := rapid.IntRange(0, 7).Draw(rt, "big") == 0
		for i := 0; i < n; i++ {
			k := rapid.IntRange(0, 1).Draw(rt, "queue")
			switch c := rapid.IntRange(0, 19).Draw(rt, "op"); {
			case c < 8:
				j, odd := genJob(rt)
				w.Op("queue %s %s%.60q", qname[k], vh.JobType(j), vh.JobParams(j))
				if odd != "" {
					w.Label("odd-job")
				}
				w.push(k, j)
			case c < 13:
				w.claim(k)
			case c < 17:
				w.retire(k, rapid.IntRange(0, 50).Draw(rt, "which"))
			case c == 17 && big:
				m := rapid.IntRange(50, 300).Draw(rt, "burst")
				w.Op("queue %s %d jobs", qname[k], m)
				for x := 0; x < m; x++ {
					w.push(k, jobs.NewIndexRepoJob(fmt.Sprintf("r%d", x)))
				}
				if m > 255 {
					w.Label("burst>255")
				}
			case c == 18 && big:
				m := rapid.IntRange(20, 250).Draw(rt, "burst")
				w.Op("claim and finish %d of the %s queue", m, qname[k])
				ops := w.Ops
				for x := 0; x < m && len(w.q[k]) > 0; x++ {
					w.claim(k)
					w.retire(k, 0)
				}
				w.Ops = ops
			case c >= 17:
				left := 0
				var lay *vh.Stored
				if vh.PID == "C44" {
					lay = w.toStored(rapid.SampledFrom([]uint64{0, 1, 250, 254, 255, 1 << 16, 1 << 40}).Draw(rt, "first key"))
				}
				for k := range w.q {
					left += len(w.q[k])
					for _, q := range w.q[k] {
						if q.claimed != nil {
							w.Label("reopen-claimed")
							q.again = true
						}
						q.claimed = nil
					}
				}
				if left > 0 {
					w.Label("reopen-unfinished")
				}
				w.Op("restart with %d unfinished", left)
				w.st.Close()
				if lay != nil {
					w.Also = "C44"
					lay.Write(filepath.Join(w.base, "ferry_db_jobs"))
				}
				w.open()
			}
			w.check()
		}
		// the rest comes out in order
		for k := range w.q {
			for _, q := range w.q[k] {
				if q.claimed == nil {
					w.claim(k)
				}
			}
			w.claim(k)
		}
		if w.Has("reopen-unfinished") && w.Has("claimed-with-others-behind") {
			w.Nontrivial()
		}
		w.End()
	})
}

// C22: the workers run jobs that fail or succeed, the history is compared with a log.

type result struct {
	desc string
	err  bool
}

func multiset(js []*libferry.Job) string {
	var s []string
	for _, j := range js {
		s = append(s, j.Description)
	}
	sort.Strings(s)
	return strings.Join(s, "|")
}

func TestHistory(t *testing.T) {
	vh.SetRule("random runs of jobs that succeed or fail through the real workers under a virtual clock, with resets and restarts, against a log per kind cut to its last hundred; counts if a kind had more than a hundred results or was reset while the other held results")
	type step struct {
		kind string
		n    int
		pat  int
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		gen := rapid.Custom(func(t *rapid.T) step {
			k := rapid.SampledFrom([]string{"run", "run", "run", "run", "many", "resetDone", "resetFailed", "restart", "restart-mid"}).Draw(t, "kind")
			return step{k, rapid.IntRange(1, 12).Draw(t, "n"), rapid.IntRange(0, 1<<12-1).Draw(t, "pat")}
		})
		steps := rapid.SliceOfN(gen, 2, 9).Draw(rt, "steps")
		long := rapid.IntRange(0, 3).Draw(rt, "long") == 0
		vh.Bubble(t, c, "C22", func() {
			base := filepath.Join(c.Dir(), "base")
			os.MkdirAll(base, 0o755)
			m, err := core.NewManager(base)
			if err != nil {
				vh.Abort("%v", err)
			}
			defer func() { m.Close() }()
			if err := m.CreateRepo("empty"); err != nil {
				vh.Abort("%v", err)
			}
			var st *jobs.JobStore
			var proc *jobs.Processor
			open := func() {
				if st, err = jobs.NewStore(base); err != nil {
					c.Fail("C22", "opening the job store: %v", err)
					vh.Abort("%v", err)
				}
				proc = jobs.NewProcessor(m, st, 2)
				proc.Begin()
			}
			shut := func() { proc.Close(); st.Close() }
			open()
			defer func() { shut() }()
			var logs [2][]string // completed, failed
			times := map[string]time.Time{}
			byTime := map[int64]string{}
			serial := 0
			for _, s := range steps {
				switch s.kind {
				case "many":
					if !long {
						continue
					}
					s.n = 60 + s.n*14
					c.Label("many")
					fallthrough
				case "run", "restart-mid":
					c.Op("run %d jobs (failing: %b) %s", s.n, s.pat, s.kind)
					begin := time.Now()
					for i := 0; i < s.n; i++ {
						bad := s.pat>>(i%12)&1 == 1
						name := fmt.Sprintf("j%d", serial)
						serial++
						if bad {
							proc.PushJob(jobs.NewIndexRepoJob(name)) // there is no such repository
							logs[1] = append(logs[1], name)
						} else {
							proc.PushJob(jobs.NewDeltaRepoJob("empty")) // nothing to do
							logs[0] = append(logs[0], name)
						}
						times[name] = time.Now()
						byTime[time.Now().UnixNano()] = name
						time.Sleep(time.Millisecond)
					}
					if s.kind == "restart-mid" {
						time.Sleep(time.Duration(s.n) * 1200 * time.Millisecond)
						shut()
						time.Sleep(5 * time.Second)
						open()
						c.Label("restart-mid")
					}
					for i := 0; ; i++ {
						time.Sleep(2500 * time.Millisecond)
						js, err := st.ActiveJobs()
						if err == nil && len(js) == 0 {
							break
						}
						if i > 3*s.n+20 {
							c.Fail("C22,C24", "%d jobs are not done after %v (%v)", len(js), time.Since(begin), err)
						}
					}
				case "resetDone", "resetFailed":
					k := 0
					f := st.ResetCompleted
					if s.kind == "resetFailed" {
						k, f = 1, st.ResetFailed
					}
					c.Op("%s", s.kind)
					if len(logs[k]) > 0 && len(logs[1-k]) > 0 {
						c.Label("reset-one")
					}
					if len(logs[k]) > 100 {
						c.Label("reset-after-wrap")
					}
					o := vh.Guard(f)
					c.Check(o.Broken() == "" && o.Err == nil, "C22", "resetting: %s %v", o.Broken(), o.Err)
					logs[k] = nil
				case "restart":
					c.Op("restart")
					shut()
					open()
				}
				done, err1 := st.CompletedJobs()
				failed, err2 := st.FailedJobs()
				c.Check(err1 == nil && err2 == nil, "C22", "reading the history: %v %v", err1, err2)
				for k, js := range [][]*libferry.Job{done, failed} {
					l := logs[k]
					if len(l) > 100 {
						l = l[len(l)-100:]
						c.Label("wrapped")
					}
					names := map[string]*libferry.Job{}
					for _, j := range js {
						n, ok := byTime[j.Timing.Queued.UnixNano()]
						if !ok || names[n] != nil {
							c.Fail("C22", "there is a result %q queued at %v twice or of unknown origin", j.Description, j.Timing.Queued)
						}
						want := n
						if k == 0 {
							want = "empty"
						}
						c.Check(strings.Contains(j.Description, "'"+want+"'"), "C22", "the job for %s is remembered as %q", want, j.Description)
						names[n] = j
					}
					kind := []string{"completed", "failed"}[k]
					for _, n := range l {
						j := names[n]
						if j == nil {
							c.Fail("C22", "the result of job %s is not among the %d %s ones, it is one of the last %d", n, len(js), kind, len(l))
							continue
						}
						c.Check(j.Failed == (k == 1) && (j.Error != "") == (k == 1), "C22", "job %s is among the %s ones as %+v", n, kind, *j)
						c.Check(k == 0 || strings.Contains(j.Error, n), "C22", "job %s failed for another reason than its own: %q", n, j.Error)
						tm := j.Timing
						c.Check(tm.Queued.Equal(times[n]) && !tm.Begin.Before(tm.Queued) && !tm.End.Before(tm.Begin) && !tm.End.After(time.Now()), "C22", "job %s queued at %v has the times %+v", n, times[n], tm)
					}
					if len(names) != len(l) {
						c.Fail("C22", "there are %d %s results, want %d", len(names), kind, len(l))
					}
				}
			}
		})
		if c.Has("wrapped") || c.Has("reset-one") {
			c.Nontrivial()
		}
		c.End()
	})
}

// anyText is what an operation may say about itself.
func anyText(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 7).Draw(t, label+"-kind") {
	case 2:
		return ""
	case 3:
		return strings.Repeat(rapid.SampledFrom([]string{"x", "é", "\n", "long text "}).Draw(t, label), rapid.IntRange(1, 3000).Draw(t, label+"-n"))
	case 4:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, label))
	case 5:
		return rapid.SampledFrom([]string{" ", "<nil>", "null", "nil", "0", "completed", "\x00", "\xff", "success", "EOF"}).Draw(t, label)
	}
	return rapid.String().Draw(t, label)
}

// C22 without the workers: any text, any mixture, any order of finishing.
func TestHistoryText(t *testing.T) {
	vh.SetRule("jobs finished with arbitrary descriptions and errors (empty, long, any bytes) in any order, with resets of either list, restarts and looks in between, against a log per kind cut to its last hundred; counts if both kinds had results")
	type past struct {
		desc, err          string
		queued, begin, end time.Time
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		base := filepath.Join(c.Dir(), "base")
		os.MkdirAll(base, 0o755)
		var st *jobs.JobStore
		open := func() {
			var err error
			if o := vh.Guard(func() error { st, err = jobs.NewStore(base); return err }); o.Err != nil || o.Broken() != "" {
				c.Fail("C22", "opening the job store: %v %s", o.Err, o.Broken())
				vh.Abort("no job store")
			}
		}
		open()
		defer func() { st.Close() }()
		var logs [2][]*past
		must := func(what string, f func() error) {
			if o := vh.Guard(f); o.Err != nil || o.Broken() != "" {
				c.Fail("C22", "%s: %v %s", what, o.Err, o.Broken())
				vh.Abort("%s", what)
			}
		}
		finish := func(bad bool, desc, text string, async bool) {
			push, claim, retire := st.PushSequentialJob, st.ClaimSequentialJob, st.RetireSequentialJob
			if async {
				push, claim, retire = st.PushAsyncJob, st.ClaimAsyncJob, st.RetireAsyncJob
			}
			j := jobs.NewIndexRepoJob("x")
			must("queueing", func() error { return push(j) })
			must("claiming", func() (err error) { j, err = claim(); return })
			p := &past{desc: desc, queued: j.Timing.Queued, begin: j.Timing.Begin}
			var fail error
			k := 0
			if bad {
				p.err, fail, k = text, errors.New(text), 1
			}
			j.VerifOutcome(desc, fail)
			j.Timing.End = time.Now().UTC()
			p.end = j.Timing.End
			must("finishing", func() error { return retire(j) })
			logs[k] = append(logs[k], p)
		}
		look := func() {
			for k, f := range []func() ([]*libferry.Job, error){st.CompletedJobs, st.FailedJobs} {
				kind := []string{"completed", "failed"}[k]
				var js []*libferry.Job
				must("reading the "+kind+" ones", func() (err error) { js, err = f(); return })
				l := logs[k]
				if len(l) > 100 {
					l = l[len(l)-100:]
					c.Label("wrapped")
				}
				if len(js) != len(l) {
					c.Fail("C22", "there are %d %s results, want %d", len(js), kind, len(l))
				}
				by := map[int64]*libferry.Job{}
				for _, j := range js {
					by[j.Timing.Queued.UnixNano()] = j
				}
				for _, p := range l {
					j := by[p.queued.UnixNano()]
					if j == nil {
						c.Fail("C22", "the %s result %.60q is missing", kind, p.desc)
						continue
					}
					if j.Description != p.desc || j.Error != p.err || j.Failed != (k == 1) || !j.Timing.Begin.Equal(p.begin) || !j.Timing.End.Equal(p.end) {
						c.Fail("C22", "the %s result %.60q with the error %.60q is remembered as %.200q", kind, p.desc, p.err, fmt.Sprintf("%+v", *j))
					}
				}
			}
		}
		for i := rapid.IntRange(1, 14).Draw(rt, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 11).Draw(rt, "step") {
			case 3:
				c.Op("reset the completed ones")
				must("resetting", st.ResetCompleted)
				logs[0] = nil
			case 5:
				c.Op("reset the failed ones")
				must("resetting", st.ResetFailed)
				logs[1] = nil
			case 7:
				c.Op("restart")
				st.Close()
				if vh.PID == "C44" {
					c.Also = "C44"
					s := &vh.Stored{}
					for k, b := range []string{"CompletedSuccess", "CompletedFailure"} {
						var rs []vh.StoredResult
						for _, p := range logs[k][max(0, len(logs[k])-100):] {
							rs = append(rs, vh.StoredResult{Description: p.desc, Error: p.err, Failed: k == 1, Timing: vh.StoredTiming{Queued: p.queued, Begin: p.begin, End: p.end}})
						}
						if len(rs) > 0 || rapid.Bool().Draw(rt, "pointer") {
							s.PutResults(b, rs, uint64(rapid.IntRange(0, 99).Draw(rt, "newest")))
						}
						if len(rs) > 0 {
							c.Label("stored results")
						}
					}
					s.Write(filepath.Join(base, "ferry_db_jobs"))
				}
				open()
			case 9:
				n := rapid.IntRange(90, 130).Draw(rt, "many")
				bad := rapid.IntRange(0, 2).Draw(rt, "which")
				c.Op("%d results", n)
				for k := 0; k < n; k++ {
					finish(bad == 2 && k%2 == 0 || bad == 1, fmt.Sprintf("many %d", k), fmt.Sprintf("why %d", k), k%3 == 0)
				}
			default:
				bad := rapid.Bool().Draw(rt, "bad")
				desc, text := anyText(rt, "desc"), anyText(rt, "text")
				c.Op("finish %.60q, failed: %v %.60q", desc, bad, text)
				finish(bad, desc, text, rapid.Bool().Draw(rt, "async"))
			}
			look()
			if len(logs[0]) > 0 && len(logs[1]) > 0 {
				c.Nontrivial()
			}
		}
		c.End()
	})
}

//go:build go1.25

package vcore

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C33: what the daemon says about itself, against what was put into it.

type listed struct {
	text   string
	words  []string // what the description has to mention; nil for a job that cannot run
	queued time.Time
	async  bool
	err    string
	seen   int
}

type statusWorld struct {
	*World
	sock    string
	queue   []*listed
	history [2][]*listed // completed, failed
	blocker time.Time
	forgot  bool // failed results were reset
}

var statusNames = []string{"unstable", "solus", "a b", "größe", "x-y", "%s", "100%", "q'uote", `d"ouble`, "tab\there", "<b>&amp;", "日本", "😀", "-a", "back\\slash", ""}

func (s *statusWorld) str(l string) string {
	if rapid.IntRange(0, 5).Draw(s.t, l+"?") == 3 {
		return strings.ToValidUTF8(rapid.String().Draw(s.t, l), "x")
	}
	return rapid.SampledFrom(statusNames).Draw(s.t, l)
}

// job draws a job of any kind, also ones that nothing can be done with.
func (s *statusWorld) job() (*jobs.JobEntry, *listed) {
	a, b, c := s.str("a"), s.str("b"), s.str("c")
	n := rapid.IntRange(-2, 1<<30).Draw(s.t, "n")
	f := rapid.Bool().Draw(s.t, "f")
	num := fmt.Sprint(n)
	var j *jobs.JobEntry
	var w []string
	async := false
	switch rapid.IntRange(0, 17).Draw(s.t, "kind") {
	case 0:
		ps := make([]string, rapid.IntRange(1, 40).Draw(s.t, "pkgs"))
		for i := range ps {
			ps[i] = fmt.Sprintf("/x/%d.eopkg", i)
		}
		j, w = jobs.NewBulkAddJob(a, ps), []string{a, fmt.Sprint(len(ps))}
	case 1:
		j, w = jobs.NewCloneRepoJob(a, b, f), []string{a, b}
	case 2:
		j, w = jobs.NewCopySourceJob(a, b, c, n, f), []string{a, b, c, num}
	case 3:
		j, w = jobs.NewCreateRepoJob(a), []string{a}
	case 4:
		j, w = jobs.NewDeleteRepoJob(a), []string{a}
	case 5:
		j, async = jobs.NewDeltaJob(a, b), true
	case 6:
		j, async = jobs.NewDeltaIndexJob(a, b), true
	case 7:
		j, w = jobs.NewDeltaRepoJob(a), []string{a}
	case 8:
		j, w = jobs.NewPullRepoJob(a, b), []string{a, b}
	case 9:
		j, w = jobs.NewRemoveSourceJob(a, b, n), []string{a, b, num}
	case 10:
		j, w = jobs.NewTransitJob(a), []string{a}
	case 11:
		j, w = jobs.NewTrimObsoleteJob(a), []string{a}
	case 12:
		j, w = jobs.NewTrimPackagesJob(a, n), []string{a, num}
	case 13:
		j, w = jobs.NewIndexRepoJob(a), []string{a}
	case 14:
		j = vh.As[jobs.JobEntry](vh.StoredJob{Type: a, Params: []string{b, c}})
	case 15:
		j = vh.As[jobs.JobEntry](vh.StoredJob{Type: string(jobs.TrimPackages), Params: []string{a, "many"}})
	case 16:
		j = vh.As[jobs.JobEntry](vh.StoredJob{Type: string(jobs.BulkAdd)})
	case 17:
		j = vh.As[jobs.JobEntry](vh.StoredJob{Type: string(jobs.CloneRepo), Params: []string{a}})
	}
	if w == nil && !async {
		s.Label("unusable job queued")
	}
	return j, &listed{text: fmt.Sprintf("%s%.40q", vh.JobType(j), vh.JobParams(j)), words: w, async: async}
}

// fill puts jobs and results into the store.
func (s *statusWorld) fill() {
	st, err := jobs.NewStore(s.base)
	if err != nil {
		vh.Abort("store: %v", err)
	}
	defer func() { st.Close() }()
	push := func(j *jobs.JobEntry, async bool) time.Time {
		p := st.PushSequentialJob
		if async {
			p = st.PushAsyncJob
		}
		if err := p(j); err != nil {
			vh.Abort("push: %v", err)
		}
		return j.Timing.Queued
	}
	// results
	n := rapid.IntRange(0, 8).Draw(s.t, "results")
	if rapid.IntRange(0, 9).Draw(s.t, "many") == 4 {
		n = rapid.IntRange(90, 230).Draw(s.t, "results")
		s.Label("many results")
	}
	for i := 0; i < n; i++ {
		l := &listed{text: fmt.Sprintf("result %d %s", i, s.str("d"))}
		var fail error
		k := 0
		if rapid.Bool().Draw(s.t, "fails") {
			l.err = fmt.Sprintf("error %d %s", i, s.str("e"))
			fail = errors.New(l.err)
			k = 1
		}
		async := rapid.Bool().Draw(s.t, "async")
		l.queued = push(jobs.NewIndexRepoJob("x"), async)
		claim, retire := st.ClaimSequentialJob, st.RetireSequentialJob
		if async {
			claim, retire = st.ClaimAsyncJob, st.RetireAsyncJob
		}
		c, err := claim()
		if err != nil {
			vh.Abort("claim: %v", err)
		}
		c.VerifOutcome(l.text, fail)
		c.Timing.End = time.Now().UTC()
		if err := retire(c); err != nil {
			vh.Abort("retire: %v", err)
		}
		s.history[k] = append(s.history[k], l)
	}
	for k := range s.history {
		if m := len(s.history[k]); m > 100 {
			s.history[k] = s.history[k][m-100:]
		}
	}
	s.Op("%d results: %d completed, %d failed", n, len(s.history[0]), len(s.history[1]))
	// the first job never ends
	s.blocker = push(jobs.NewIndexRepoJob("never"), false)
	s.fifo()
	m := rapid.IntRange(0, 12).Draw(s.t, "queued")
	if rapid.IntRange(0, 9).Draw(s.t, "long") == 4 {
		m = rapid.IntRange(90, 300).Draw(s.t, "queued")
		s.Label("long queue")
	}
	for i := 0; i < m; i++ {
		j, l := s.job()
		if m > 20 && i%5 != 3 {
			j, l = jobs.NewIndexRepoJob(fmt.Sprintf("r%d", i)), &listed{text: fmt.Sprintf("index r%d", i), words: []string{fmt.Sprintf("r%d", i)}}
		}
		l.queued = push(j, l.async)
		if m <= 20 {
			s.Op("queue %s", l.text)
		}
		s.queue = append(s.queue, l)
	}
	for i := rapid.IntRange(0, 2).Draw(s.t, "claimed"); i > 0; i-- {
		st.ClaimSequentialJob() // the process dies with it
	}
}

// fifo makes the index of a repository take for ever.
func (s *statusWorld) fifo() {
	p := filepath.Join(s.assetDir("never"), "distribution.xml")
	os.Remove(p)
	if err := syscall.Mkfifo(p, 0o644); err != nil {
		vh.Abort("%v", err)
	}
}

func stamp(t time.Time) int64 { return t.UnixNano() }

func (s *statusWorld) status(cl vh.Talker, running bool) *libferry.StatusRequest {
	var r *libferry.StatusRequest
	o := vh.Guard(func() (err error) {
		r, err = cl.GetStatus()
		return
	})
	if o.Err != nil || o.Broken() != "" || r == nil {
		s.Fail("C33", "asking for the status: %v %s", o.Err, o.Broken())
		return nil
	}
	past := func(k int, js libferry.JobSet) {
		kind := []string{"completed", "failed"}[k]
		by := map[string]*listed{}
		for _, l := range s.history[k] {
			by[l.text] = l
			l.seen = 0
		}
		for _, j := range js {
			l := by[j.Description]
			if l == nil && k == 1 && s.wasAsync(j) {
				continue // has been tried in the meantime
			}
			if l == nil {
				s.Fail("C33", "the status has a %s job %q that never was", kind, j.Description)
				continue
			}
			l.seen++
			if j.Error != l.err || j.Failed != (l.err != "") || stamp(j.Timing.Queued) != stamp(l.queued) {
				s.Fail("C33", "a %s job is listed as %+v, it was %+v", kind, *j, *l)
			}
			if j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin) {
				s.Fail("C33", "a %s job is listed with the times %+v", kind, j.Timing)
			}
		}
		over := len(js) - 100 // the later ones push the earlier ones out
		for _, l := range s.history[k] {
			if l.seen != 1 && !(k == 1 && l.seen == 0 && over >= 0) {
				s.Fail("C33", "the %s job %q is listed %d times, there are %d", kind, l.text, l.seen, len(js))
			}
		}
	}
	past(0, r.CompletedJobs)
	past(1, r.FailedJobs)
	by := map[int64]*listed{}
	for _, l := range s.queue {
		by[stamp(l.queued)] = l
		l.seen = 0
	}
	blocked := 0
	for _, j := range r.CurrentJobs {
		if stamp(j.Timing.Queued) == stamp(s.blocker) {
			blocked++
			if !strings.Contains(j.Description, "never") || (running && j.Timing.Begin.IsZero()) {
				s.Fail("C33", "the job that runs is listed as %+v", *j)
			}
			continue
		}
		l := by[stamp(j.Timing.Queued)]
		if l == nil {
			s.Fail("C33", "a job is listed that was never queued: %+v", *j)
			continue
		}
		l.seen++
		for _, w := range l.words {
			if !strings.Contains(j.Description, w) {
				s.Fail("C33", "%s is listed as %q, which does not say %q", l.text, j.Description, w)
			}
		}
		if j.Failed || j.Error != "" || (!j.Timing.Begin.IsZero() && !l.async) || !j.Timing.End.IsZero() {
			s.Fail("C33", "%s, which waits, is listed as %+v", l.text, *j)
		}
	}
	if blocked != 1 {
		s.Fail("C33", "the job that runs is listed %d times", blocked)
	}
	for _, l := range s.queue {
		tried := l.async && s.forgot // tried, and the result reset
		for _, j := range r.FailedJobs {
			tried = tried || (l.async && stamp(j.Timing.Queued) == stamp(l.queued))
		}
		if l.seen != 1 && !(tried && l.seen == 0) {
			s.Fail("C33", "%s is queued and listed %d times", l.text, l.seen)
		}
	}
	if r.Version != libferry.Version || r.TimeStarted.After(time.Now()) || time.Since(r.TimeStarted) > time.Hour {
		s.Fail("C33", "the daemon says it is version %q and was started at %v", r.Version, r.TimeStarted)
	}
	return r
}

func (s *statusWorld) wasAsync(j *libferry.Job) bool {
	for _, l := range s.queue {
		if l.async && stamp(j.Timing.Queued) == stamp(l.queued) {
			return true
		}
	}
	return false
}

// lists compares the listings with what the manager had.
func (s *statusWorld) lists(cl vh.Talker, st *State) {
	want := sortedNames(st.Repos)
	repos, err := cl.GetRepos()
	if err != nil {
		s.Fail("C33", "listing the repositories: %v", err)
	}
	got := append([]string{}, repos...)
	sort.Strings(got)
	if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		s.Fail("C33", "the repositories are %q, listed are %q", want, got)
	}
	items, err := cl.GetPoolItems()
	if err != nil {
		s.Fail("C33", "listing the pool: %v", err)
	}
	seen := map[string]bool{}
	for _, i := range items {
		p, ok := st.Pool[i.ID]
		if !ok || seen[i.ID] || uint64(i.RefCount) != p.Ref {
			s.Fail("C33", "the pool item %q (there: %v, twice: %v) is listed with %d references, it has %d", i.ID, ok, seen[i.ID], i.RefCount, p.Ref)
		}
		seen[i.ID] = true
	}
	if len(seen) != len(st.Pool) {
		s.Fail("C33", "of %d pool items %d are listed", len(st.Pool), len(seen))
	}
}

func (s *statusWorld) ctl(arg ...string) []string {
	p := vh.Run("VERIF_FERRYCTL", s.Dir(), append([]string{"-s", s.sock}, arg...)...)
	if p.ExitCode() != 0 {
		s.Fail("C33", "ferryctl %q ends with %d: %s", arg, p.ExitCode(), p.Output())
	}
	return strings.Split(p.Output(), "\n")
}

// printed checks what the command prints.
func (s *statusWorld) printed(st *State, r *libferry.StatusRequest) {
	var got []string
	for _, l := range s.ctl("list", "repos") {
		if n, ok := strings.CutPrefix(l, " * "); ok {
			got = append(got, n)
		}
	}
	sort.Strings(got)
	if want := sortedNames(st.Repos); strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		s.Fail("C33", "the repositories are %q, printed are %q", want, got)
	}
	n := 0
	for _, l := range s.ctl("list", "pool") {
		for id, p := range st.Pool {
			if strings.HasSuffix(l, " "+id) {
				n++
				if !strings.Contains(strings.TrimSuffix(l, " "+id), fmt.Sprint(p.Ref)) {
					s.Fail("C33", "%q has %d references, printed is %q", id, p.Ref, l)
				}
			}
		}
	}
	if n != len(st.Pool) {
		s.Fail("C33", "of %d pool items %d are printed", len(st.Pool), n)
	}
	rows := map[string]int{}
	for _, l := range s.ctl("status", "-a") {
		f := strings.SplitN(strings.TrimSpace(l), " ", 2)
		if strings.Contains(l, "|") {
			rows[f[0]]++
		}
	}
	active := rows["queued"] + rows["running"]
	// those that are tried meanwhile move from one list to the other
	slack := 0
	for _, l := range s.queue {
		if l.async {
			slack++
		}
	}
	if d := len(r.CurrentJobs) - active; d < 0 || d > slack || rows["success"] != len(r.CompletedJobs) || rows["failed"] < len(r.FailedJobs) || rows["failed"] > len(r.FailedJobs)+slack {
		s.Fail("C33", "%d jobs are unfinished, %d completed, %d failed; printed are %v", len(r.CurrentJobs), len(r.CompletedJobs), len(r.FailedJobs), rows)
	}
}

// TestStatus asks a daemon about generated states.
func TestStatus(t *testing.T) {
	vh.SetRule("a history of 0-12 repository operations, up to 230 results of jobs, and a queue of up to 300 jobs of all kinds, some of them unusable, behind one that never ends; the answers of a real ferryd to libferry.Client, and what ferryctl prints, are compared with what was put in. Non-trivial: at least one repository holds a package, and there are a queued job and a result.")
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		s := &statusWorld{World: w}
		defer w.Cleanup()
		defer w.close()
		w.genUniverse()
		w.prelude()
		for _, o := range genOpsN(rt, 0, 12) {
			if w.dead {
				break
			}
			w.apply(o)
		}
		if !w.dead && w.last.Repos["never"] == nil {
			w.doCreate("never")
		}
		if w.dead {
			w.End()
			return
		}
		st := w.observe()
		s.halfMade(st)
		w.close()
		s.fill()
		w.dead = true // nothing more is done through the manager
		os.Chmod(s.Dir(), 0o755)
		vh.Own(s.Dir())
		s.sock = filepath.Join(s.Dir(), "s")
		d := vh.StartDaemon(s.base, s.sock)
		defer d.Kill()
		if !d.Ready() {
			vh.Abort("the daemon does not start: %s", d.Output())
		}
		cl := vh.Talk(s.sock)
		if vh.PID == "C44" {
			s.Also = "C44"
		}
		defer cl.Close()
		if r := s.status(cl, false); r != nil {
			s.lists(cl, st)
			if rapid.IntRange(0, 2).Draw(rt, "print") == 1 {
				s.Label("printed")
				s.printed(st, r)
			}
			if rapid.IntRange(0, 7).Draw(rt, "wait") == 5 {
				s.running(cl, st)
			}
			s.reset(cl)
		}
		if len(st.Pool) > 0 && len(s.queue) > 0 && len(s.history[0])+len(s.history[1]) > 0 {
			w.Nontrivial()
		}
		w.End()
	})
}

// halfMade leaves a repository behind whose cloning failed half way. Its name
// is taken, so it is one of those there are.
func (s *statusWorld) halfMade(st *State) {
	if s.m == nil || rapid.IntRange(0, 2).Draw(s.t, "half") != 1 {
		return
	}
	p := filepath.Join(s.assetDir("never"), "distribution.xml")
	os.RemoveAll(p)
	if err := os.MkdirAll(filepath.Join(p, "x"), 0o755); err != nil {
		vh.Abort("%v", err)
	}
	var err error
	o := vh.Guard(func() error {
		err = s.m.CloneRepo("never", "half", rapid.Bool().Draw(s.t, "full"))
		return s.m.CreateRepo("half")
	})
	if o.Broken() != "" {
		s.Fail("C33", "creating what was cloned in half: %s", o.Broken())
		return
	}
	s.Op("clone never into half: %v; create half: %v", err != nil, o.Err != nil)
	if st.Repos["half"] == nil {
		st.Repos["half"] = map[string]Entry{}
	}
	if err != nil && o.Err != nil {
		s.Label("a half-made repository")
	}
	os.RemoveAll(p)
}

// running waits until the first job runs.
func (s *statusWorld) running(cl vh.Talker, st *State) {
	end := time.Now().Add(60 * time.Second)
	for {
		r, err := cl.GetStatus()
		if err != nil {
			s.Fail("C33", "asking for the status: %v", err)
			return
		}
		for _, j := range r.CurrentJobs {
			if stamp(j.Timing.Queued) == stamp(s.blocker) && !j.Timing.Begin.IsZero() {
				s.Op("the first job runs")
				s.Label("running")
				s.status(cl, true)
				s.lists(cl, st)
				return
			}
		}
		if time.Now().After(end) {
			vh.Abort("the first job does not run")
		}
		time.Sleep(30 * time.Millisecond)
	}
}

// reset forgets one kind of results.
func (s *statusWorld) reset(cl vh.Talker) {
	k := rapid.IntRange(-1, 1).Draw(s.t, "reset")
	if k < 0 {
		return
	}
	s.Op("reset the %s ones", []string{"completed", "failed"}[k])
	f := cl.ResetCompleted
	if k == 1 {
		f = cl.ResetFailed
	}
	if err := f(); err != nil {
		s.Fail("C33", "resetting: %v", err)
		return
	}
	s.history[k] = nil
	s.forgot = k == 1
	s.status(cl, false)
}

// TestListLive reads the listings while operations are under way.
func TestListLive(t *testing.T) {
	vh.SetRule("a history of 10-40 repository operations while two readers list repositories and pool over and over; each listing names what was there before and after the operation, each once, and nothing else. Non-trivial: a listing was taken in the middle of an operation that changed the pool or the repositories.")
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		defer w.Cleanup()
		defer w.close()
		w.genUniverse()
		w.prelude()
		for _, o := range genOps(rt) {
			if w.dead {
				break
			}
			w.live(o)
		}
		w.End()
	})
}

func (w *World) live(o op) {
	pre, m := w.last, w.m
	if o.Kind == "reopen" || m == nil {
		w.apply(o)
		return
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	type seen struct {
		repos []string
		pool  map[string]int
		err   error
		dup   string
	}
	var mu sync.Mutex
	var all []seen
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				var s seen
				rs, err := m.GetRepos()
				if err != nil {
					s.err = err
				}
				for _, r := range rs {
					s.repos = append(s.repos, r.ID)
				}
				ps, err := m.GetPoolItems()
				if err != nil {
					s.err = err
				}
				s.pool = map[string]int{}
				for _, p := range ps {
					if _, ok := s.pool[p.Name]; ok {
						s.dup = p.Name
					}
					s.pool[p.Name] = int(vh.As[vh.StoredItem](p).RefCount)
				}
				mu.Lock()
				all = append(all, s)
				mu.Unlock()
			}
		}()
	}
	w.apply(o)
	close(stop)
	wg.Wait()
	if w.dead {
		return
	}
	post := w.last
	if len(all) > 2 && (len(pre.Pool) != len(post.Pool) || len(pre.Repos) != len(post.Repos)) {
		w.Nontrivial()
	}
	for _, s := range all {
		if s.err != nil {
			w.Fail("C33", "listing while %s is under way: %v", o.Kind, s.err)
			return
		}
		if s.dup != "" {
			w.Fail("C33", "%q is listed twice in the pool while %s is under way", s.dup, o.Kind)
		}
		there := map[string]int{}
		for _, r := range s.repos {
			there[r]++
		}
		for r, n := range there {
			if n > 1 || (pre.Repos[r] == nil && post.Repos[r] == nil) {
				w.Fail("C33", "while %s is under way the repository %q is listed %d times", o.Kind, r, n)
			}
		}
		for r := range pre.Repos {
			if post.Repos[r] != nil && there[r] != 1 {
				w.Fail("C33", "while %s is under way the repository %q is not listed", o.Kind, r)
			}
		}
		for id := range s.pool {
			_, a := pre.Pool[id]
			_, b := post.Pool[id]
			if !a && !b {
				w.Fail("C33", "while %s is under way the pool item %q is listed, which was there neither before nor after", o.Kind, id)
			}
		}
		for id, p := range pre.Pool {
			if q, ok := post.Pool[id]; ok {
				n, ok := s.pool[id]
				if !ok {
					w.Fail("C33", "while %s is under way the pool item %q is not listed", o.Kind, id)
				} else if p.Ref == q.Ref && uint64(n) != p.Ref {
					w.Label("references differ in between")
				}
			}
		}
	}
}

//go:build go1.25

package vcore

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C24: a twin gets every operation directly, the first world gets it as a job.

type twin struct {
	a, b  *World
	store *jobs.JobStore
	proc  *jobs.Processor
	fails int
	dones int
}

// planned is one job with the call it stands for.
type planned struct {
	text   string
	job    *jobs.JobEntry
	direct func() error // nil: the job cannot be run at all
	names  []string     // what its description has to mention
	stored []string     // its type and parameters in the stored form
	extra  func() int   // how many further jobs it queues, asked before direct
}

func (w *World) shareUniverse(o *World) {
	w.srcs, w.names, w.pkgs = o.srcs, o.names, o.pkgs
}

func newTwinWorld(c *vh.Case, name string) *World {
	w := &World{Case: c, pkgs: map[string]*vh.Pkg{}, deltas: map[string]mapping{}, marked: map[string]bool{}, trees: map[string]map[string]string{}}
	w.base = filepath.Join(c.Dir(), name)
	w.inbox = filepath.Join(c.Dir(), "inbox")
	for _, d := range []string{w.base, w.inbox} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			vh.Abort("%v", err)
		}
	}
	return w
}

func (tw *twin) plan(o op) planned {
	a, b := tw.a, tw.b
	st := a.last
	v := o.V
	var p planned
	switch o.Kind {
	case "add":
		r := a.repoOf(st, v[0], true)
		var paths []string
		for i := 0; i < 1+mix(v[1], 3); i++ {
			paths = append(paths, a.pkgOf(v[2], v[3]+i*7, v[4]+i*131).WriteTo(a.inbox))
		}
		if v[5]%9 == 8 {
			paths = append(paths, badFile(a.inbox, badKinds[mix(v[5], len(badKinds))]))
			if v[4]%2 == 0 {
				paths = paths[len(paths)-1:]
			}
		}
		p.text = fmt.Sprintf("import %d packages into %q: %v", len(paths), r, base(paths))
		p.job, p.direct, p.names = jobs.NewBulkAddJob(r, paths), func() error { return b.m.AddPackages(r, paths, false) }, []string{r}
		p.stored = append([]string{"BulkAdd", r}, paths...)
	case "create":
		r := a.names[mix(v[0], len(a.names))]
		p.text = fmt.Sprintf("create %q", r)
		p.job, p.direct, p.names = jobs.NewCreateRepoJob(r), func() error { return b.m.CreateRepo(r) }, []string{r}
		p.stored = []string{"CreateRepo", r}
	case "delete":
		r := a.repoOf(st, v[0], true)
		p.text = fmt.Sprintf("delete %q", r)
		p.job, p.direct, p.names = jobs.NewDeleteRepoJob(r), func() error { return b.m.DeleteRepo(r) }, []string{r}
		p.stored = []string{"DeleteRepo", r}
	case "clone":
		r, n, full := a.repoOf(st, v[0], true), a.names[mix(v[1], len(a.names))], v[2]%2 == 0
		p.text = fmt.Sprintf("clone %q to %q full %v", r, n, full)
		p.job, p.direct, p.names = jobs.NewCloneRepoJob(r, n, full), func() error { return b.m.CloneRepo(r, n, full) }, []string{r, n}
		p.stored = []string{"CloneRepo", r, n, map[bool]string{true: "full", false: "tip"}[full]}
	case "pull":
		r, n := a.repoOf(st, v[0], true), a.repoOf(st, v[1], true)
		p.text = fmt.Sprintf("pull %q into %q", r, n)
		p.job, p.direct, p.names = jobs.NewPullRepoJob(r, n), func() error { _, err := b.m.PullRepo(r, n); return err }, []string{r, n}
		p.stored = []string{"PullRepo", r, n}
	case "removeSource":
		r := a.repoOf(st, v[0], true)
		s, rel := a.srcRel(st, r, v[1], v[2], v[3])
		p.text = fmt.Sprintf("remove source %q %d from %q", s, rel, r)
		p.job, p.direct, p.names = jobs.NewRemoveSourceJob(r, s, rel), func() error { return b.m.RemoveSource(r, s, rel) }, []string{r, s}
		p.stored = []string{"RemoveSource", r, s, strconv.Itoa(rel)}
	case "copySource":
		r, n, skip := a.repoOf(st, v[0], true), a.repoOf(st, v[4], true), v[5]%2 == 0
		s, rel := a.srcRel(st, r, v[1], v[2], v[3])
		p.text = fmt.Sprintf("copy source %q %d from %q to %q, skip index %v", s, rel, r, n, skip)
		p.job, p.direct, p.names = jobs.NewCopySourceJob(r, n, s, rel, skip), func() error { return b.m.CopySource(r, n, s, rel, skip) }, []string{r, n, s}
		p.stored = []string{"CopySource", r, n, s, strconv.Itoa(rel), strconv.FormatBool(skip)}
	case "trimPackages":
		r, n := a.repoOf(st, v[0], true), []int{1, 2, 3, 1, 2, 32768, 70000, 1<<31 - 1}[mix(v[1], 8)]
		p.text = fmt.Sprintf("trim %q to %d", r, n)
		p.job, p.direct, p.names = jobs.NewTrimPackagesJob(r, n), func() error { return b.m.TrimPackages(r, n) }, []string{r}
		p.stored = []string{"TrimPackages", r, strconv.Itoa(n)}
	case "trimObsolete":
		r := a.repoOf(st, v[0], true)
		p.text = fmt.Sprintf("trim obsoletes of %q", r)
		p.job, p.direct, p.names = jobs.NewTrimObsoleteJob(r), func() error { return b.m.TrimObsolete(r) }, []string{r}
		p.stored = []string{"TrimObsolete", r}
	case "index":
		r := a.repoOf(st, v[0], true)
		p.text = fmt.Sprintf("index %q", r)
		p.job, p.direct, p.names = jobs.NewIndexRepoJob(r), func() error { return b.m.Index(r) }, []string{r}
		p.stored = []string{"IndexRepo", r}
	case "deltaRepo":
		r := a.repoOf(st, v[0], true)
		p.text = fmt.Sprintf("queue the deltas of %q", r)
		p.job, p.direct, p.names = jobs.NewDeltaRepoJob(r), func() error { _, err := b.m.GetPackageNames(r); return err }, []string{r}
		p.stored = []string{"DeltaRepo", r}
		p.extra = func() int { ns, _ := b.m.GetPackageNames(r); return len(ns) }
	case "broken":
		r := a.repoOf(st, v[0], true)
		js := []vh.StoredJob{
			{Type: string(jobs.BulkAdd), Params: []string{r}}, {Type: string(jobs.BulkAdd)}, {Type: string(jobs.CloneRepo), Params: []string{r}}, {Type: string(jobs.CreateRepo), Params: []string{"x", "y"}},
			{Type: string(jobs.DeleteRepo)}, {Type: string(jobs.DeleteRepo), Params: []string{r, r}}, {Type: string(jobs.PullRepo), Params: []string{r}}, {Type: string(jobs.RemoveSource), Params: []string{r, "nano", "x"}},
			{Type: string(jobs.RemoveSource), Params: []string{r, "nano"}}, {Type: string(jobs.CopySource), Params: []string{r, r, "nano", "1", "maybe"}}, {Type: string(jobs.CopySource), Params: []string{r, r, "nano", "", "true"}},
			{Type: string(jobs.TrimPackages), Params: []string{r, "many"}}, {Type: string(jobs.TrimObsolete)}, {Type: string(jobs.IndexRepo), Params: []string{}}, {Type: string(jobs.TransitProcess)}, {Type: "Nonsense", Params: []string{r}}, {Type: ""},
			{Type: string(jobs.TrimPackages), Params: []string{r, "99999999999999999999"}}, {Type: string(jobs.CloneRepo), Params: []string{r, "c", "full", "x"}},
			{Type: string(jobs.DeltaRepo)}, {Type: string(jobs.DeltaRepo), Params: []string{r, r}},
		}
		p.job = vh.As[jobs.JobEntry](js[mix(v[1], len(js))])
		p.text = fmt.Sprintf("job %s with %q", vh.JobType(p.job), vh.JobParams(p.job))
	}
	if vh.PID == "C44" && p.stored != nil {
		// as an earlier version stored it
		p.job = vh.As[jobs.JobEntry](vh.StoredJob{Type: p.stored[0], Params: p.stored[1:]})
	}
	return p
}

func base(ps []string) []string {
	var r []string
	for _, p := range ps {
		r = append(r, filepath.Base(p))
	}
	return r
}

func (tw *twin) openJobs() {
	st, err := jobs.NewStore(tw.a.base)
	if err != nil {
		vh.Abort("job store: %v", err)
	}
	tw.store = st
}

func (tw *twin) closeJobs() {
	if tw.proc != nil {
		tw.proc.Close()
		tw.proc = nil
	}
	if tw.store != nil {
		tw.store.Close()
		tw.store = nil
	}
}

func (tw *twin) drain(n int) {
	w := tw.a
	for i := 0; ; i++ {
		time.Sleep(3 * time.Second)
		js, err := tw.store.ActiveJobs()
		if err != nil {
			w.Fail("C24,C33", "listing the queue: %v", err)
			return
		}
		if len(js) == 0 {
			break
		}
		if i > 4*n+10 {
			w.Fail("C24", "the queue does not empty: %d jobs left", len(js))
			return
		}
	}
	time.Sleep(time.Second)
}

func (tw *twin) history() (done, failed []*libferry.Job) {
	var err error
	if done, err = tw.store.CompletedJobs(); err == nil {
		failed, err = tw.store.FailedJobs()
	}
	if err != nil {
		tw.a.Fail("C24,C22", "reading the results: %v", err)
	}
	for _, l := range [][]*libferry.Job{done, failed} {
		sort.SliceStable(l, func(i, j int) bool { return l[i].Timing.Queued.Before(l[j].Timing.Queued) })
	}
	return
}

func (tw *twin) compare(what string) {
	a, b := tw.a, tw.b
	sa, sb := a.observe(), b.observe()
	if len(sa.Repos) != len(sb.Repos) {
		a.Fail("C24", "after %s there are repositories %v, the calls make %v", what, sortedNames(sa.Repos), sortedNames(sb.Repos))
	}
	for _, r := range sortedNames(sb.Repos) {
		if d := diffRepo(sa.Repos[r], sb.Repos[r]); d != "" {
			a.Fail("C24", "after %s in %q: %s", what, r, d)
		}
	}
	for _, d := range []string{"repo", "pool", "assets"} {
		if x := vh.DiffTree(vh.Tree(filepath.Join(b.base, d)), vh.Tree(filepath.Join(a.base, d))); x != "" {
			a.Fail("C24", "after %s the files in %s differ from what the calls make: %s", what, d, x)
		}
	}
	a.last, b.last = sa, sb
}

func TestJobs(t *testing.T) {
	vh.SetRule("random batches of jobs of every kind, some malformed, run by the real workers under a virtual clock, against a twin that gets the same operations as direct calls; state, files, indexes and recorded results compared after every batch; counts if a batch of several jobs mixed success and failure")
	ks := []string{"add", "add", "add", "create", "create", "delete", "clone", "pull", "removeSource", "copySource", "trimPackages", "trimObsolete", "index", "broken", "broken", "assets", "deltaRepo"}
	if _, err := jobs.NewJobHandler(jobs.NewDeltaJob("r", "n")); err == nil {
		ks = ks[:len(ks)-1] // delta jobs are carried out: side by side with the others, which has no twin
	}
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		a, b := newTwinWorld(c, "a"), newTwinWorld(c, "b")
		a.t = rt
		if vh.PID == "C44" {
			c.Also = "C44"
		}
		a.genUniverse()
		b.shareUniverse(a)
		lens := rapid.SliceOfN(rapid.IntRange(1, 5), 1, 6).Draw(rt, "batches")
		var ops [][]op
		for _, n := range lens {
			var bt []op
			for i := 0; i < n; i++ {
				o := op{Kind: rapid.SampledFrom(ks).Draw(rt, "kind")}
				for j := range o.V {
					o.V[j] = rapid.IntRange(0, 1023).Draw(rt, "v")
				}
				bt = append(bt, o)
			}
			ops = append(ops, bt)
		}
		restarts := rapid.IntRange(0, 63).Draw(rt, "restarts")
		vh.Bubble(t, c, "C24", func() {
			tw := &twin{a: a, b: b}
			a.open("C24")
			b.open("C24")
			defer a.close()
			defer b.close()
			tw.openJobs()
			defer tw.closeJobs()
			a.last, b.last = a.observe(), b.observe()
			first := []op{{Kind: "create", V: [6]int{0}}, {Kind: "add", V: [6]int{0, 2, 5, 7, 9, 0}}, {Kind: "create", V: [6]int{3}}}
			all := append([][]op{first[:1], first[1:]}, ops...)
			for bi, bt := range all {
				tw.batch(bt)
				if restarts>>(bi%6)&1 == 1 && bi%2 == 0 {
					c.Op("restart")
					tw.closeJobs()
					a.close()
					a.open("C24")
					tw.openJobs()
					tw.compare("the restart")
				}
			}
			if !a.dead {
				tw.deltaJobs()
			}
		})
		if c.Has("mixed") {
			c.Nontrivial()
		}
		c.End()
	})
}

func (tw *twin) batch(ops []op) {
	a := tw.a
	if js, _ := tw.history(); len(js) > 90 {
		return // the history would begin to forget
	}
	done0, failed0 := tw.history()
	var ps []planned
	names := 0
	for _, r := range a.last.Repos {
		names += len(r)
	}
	for _, o := range ops {
		if o.Kind == "assets" {
			r := a.repoOf(a.last, o.V[0], false)
			if _, ok := a.last.Repos[r]; ok && len(ps) == 0 {
				if o.V[5]%8 == 7 {
					f := filepath.Join(a.assetDir(r), assetNames[o.V[1]%3])
					c := []string{"", "<PISI>", "nothing"}[o.V[2]%3]
					a.Op("assets of %q: %s is %q", r, filepath.Base(f), c)
					if err := os.WriteFile(f, []byte(c), 0o644); err != nil {
						vh.Abort("%v", err)
					}
					a.Label("unreadable-assets")
				} else {
					a.setAssets(r, o.V[1:])
				}
				for _, f := range []string{"distribution.xml", "components.xml", "groups.xml"} {
					if d, err := os.ReadFile(filepath.Join(a.assetDir(r), f)); err == nil {
						os.WriteFile(filepath.Join(tw.b.assetDir(r), f), d, 0o644)
					} else {
						os.Remove(filepath.Join(tw.b.assetDir(r), f))
					}
				}
			}
			continue
		}
		if o.Kind == "deltaRepo" {
			// none of the results must be forgotten
			if len(failed0)+2*names > 80 {
				continue
			}
			names *= 3
		}
		ps = append(ps, tw.plan(o))
	}
	// the workers start when everything is queued and listed
	tw.proc = jobs.NewProcessor(tw.a.m, tw.store, 2)
	var queued []string
	for _, p := range ps {
		a.Op("job: %s", p.text)
		time.Sleep(time.Millisecond)
		if p.direct == nil || vh.PID == "C44" {
			if err := tw.store.PushSequentialJob(p.job); err != nil {
				a.Fail("C24,C21", "queueing %s: %v", p.text, err)
			}
		} else {
			tw.proc.PushJob(p.job)
		}
	}
	if js, err := tw.store.ActiveJobs(); err != nil || len(js) != len(ps) {
		a.Fail("C24,C33,C21", "%d jobs were queued and %d are listed (%v)", len(ps), len(js), err)
	} else {
		sort.SliceStable(js, func(i, j int) bool { return js[i].Timing.Queued.Before(js[j].Timing.Queued) })
		for _, j := range js {
			queued = append(queued, j.Description)
		}
	}
	// the same, directly
	type outcome struct {
		err  error
		none bool
	}
	var want []outcome
	ok, bad, extra := 0, 0, 0
	for _, p := range ps {
		if p.extra != nil {
			extra += p.extra()
		}
		if p.direct == nil {
			want = append(want, outcome{none: true})
			bad++
			continue
		}
		o := vh.Guard(p.direct)
		if o.Broken() != "" {
			a.dead = true
			a.Fail("C24,C30", "%s: %s", p.text, o.Broken())
			return
		}
		want = append(want, outcome{err: o.Err})
		if o.Err != nil {
			bad++
		} else {
			ok++
		}
		tw.b.last = tw.b.observe()
	}
	if ok > 0 && bad > 0 {
		a.Label("mixed")
	}
	tw.proc.Begin()
	tw.drain(len(ps) + extra)
	tw.proc.Close()
	what := fmt.Sprintf("%d jobs", len(ps))
	tw.compare(what)
	done, failed := tw.history()
	if extra > 0 {
		a.Label("delta jobs queued")
		// delta jobs have no handler, which is a finding of its own
		mine := map[int64]bool{}
		for _, p := range ps {
			mine[p.job.Timing.Queued.UnixNano()] = true
		}
		var own []*libferry.Job
		n := 0
		for i, j := range failed {
			if i < len(failed0) || mine[j.Timing.Queued.UnixNano()] {
				own = append(own, j)
			} else {
				n++
			}
		}
		failed = own
		if n != extra {
			a.Fail("C24", "%d delta jobs were to be queued, %d failed ones are recorded", extra, n)
		}
	}
	if len(done)-len(done0) != ok || len(failed)-len(failed0) != bad {
		a.Fail("C24,C22", "of %d jobs %d succeed and %d fail, but %d more are recorded as completed and %d as failed", len(ps), ok, bad, len(done)-len(done0), len(failed)-len(failed0))
		return
	}
	// both sorted by the time of queueing
	di, fi := len(done0), len(failed0)
	for i, p := range ps {
		o := want[i]
		var j *libferry.Job
		if o.none || o.err != nil {
			j = failed[fi]
			fi++
			if !j.Failed || j.Error == "" {
				a.Fail("C24,C22", "%s failed and is recorded as %+v", p.text, *j)
			}
			if o.err != nil {
				if x, y := tw.scrub(j.Error), tw.scrub(o.err.Error()); x != y {
					a.Fail("C24", "%s is recorded with the error %q, the call gives %q", p.text, x, y)
				}
			}
		} else {
			j = done[di]
			di++
			if j.Failed || j.Error != "" {
				a.Fail("C24,C22", "%s succeeded and is recorded as %+v", p.text, *j)
			}
		}
		if !o.none {
			if j.Description != queued[i] {
				a.Fail("C24,C22", "%s was queued as %q and is recorded as %q", p.text, queued[i], j.Description)
			}
			for _, n := range p.names {
				if !strings.Contains(j.Description, n) {
					a.Fail("C24,C33", "%s is described as %q", p.text, j.Description)
				}
			}
		}
		if j.Timing.Begin.Before(j.Timing.Queued) || j.Timing.End.Before(j.Timing.Begin) || j.Timing.Queued.IsZero() {
			a.Fail("C24,C22", "%s has the times %+v", p.text, j.Timing)
		}
	}
}

func (tw *twin) scrub(s string) string {
	return strings.NewReplacer(tw.a.base, "BASE", tw.b.base, "BASE").Replace(s)
}

// deltaJobs looks at what the job of a repository's deltas queues: one job for
// each of its names, and nothing for one that is not there.
func (tw *twin) deltaJobs() {
	a := tw.a
	tw.proc = jobs.NewProcessor(a.m, tw.store, 2) // never begun
	for _, r := range append(sortedNames(a.last.Repos), "not there") {
		h, err := jobs.NewJobHandler(jobs.NewDeltaRepoJob(r))
		if err != nil {
			a.Fail("C24", "the job for the deltas of %q: %v", r, err)
			return
		}
		o := vh.Guard(func() error { return h.Execute(tw.proc, a.m) })
		if o.Broken() != "" || (o.Err != nil) != (a.last.Repos[r] == nil) {
			a.Fail("C24,C15", "the job for the deltas of %q: %v %s", r, o.Err, o.Broken())
		}
		want := map[string]int{}
		for n := range a.last.Repos[r] {
			want[n] = 1
		}
		for {
			j, err := tw.store.ClaimAsyncJob()
			if err == jobs.ErrEmptyQueue {
				break
			}
			if err != nil {
				a.Fail("C24,C21", "claiming a delta job: %v", err)
				return
			}
			if ps := vh.JobParams(j); vh.JobType(j) != string(jobs.Delta) || len(ps) != 2 || ps[0] != r || want[ps[1]] != 1 {
				a.Fail("C24", "the job for the deltas of %q queues %s %q; it holds %v", r, vh.JobType(j), ps, want)
			} else {
				want[ps[1]] = 2
			}
			if err := tw.store.RetireAsyncJob(j); err != nil {
				vh.Abort("%v", err)
			}
		}
		for n, k := range want {
			if k != 2 {
				a.Fail("C24", "the job for the deltas of %q queues none for %q", r, n)
			}
		}
	}
	tw.proc = nil
}

// TestJobsKnown reproduces the listed finding: delta jobs are queued but have no handler.
func TestJobsKnown(t *testing.T) {
	c := vh.Begin(t)
	defer c.Cleanup()
	vh.Bubble(t, c, "C24", func() {
		a := newTwinWorld(c, "a")
		tw := &twin{a: a, b: a}
		a.open("C24")
		defer a.close()
		tw.openJobs()
		defer tw.closeJobs()
		if err := a.m.CreateRepo("r"); err != nil {
			vh.Abort("%v", err)
		}
		p := (&vh.Spec{Name: "nano", Source: "nano", DistRel: "1", Arch: "x86_64", Summary: "s", Desc: "d", History: []vh.Upd{{Release: 1, Version: "1", Comment: "c", Name: "n"}}}).Build()
		if err := a.m.AddPackages("r", []string{p.WriteTo(a.inbox)}, false); err != nil {
			vh.Abort("%v", err)
		}
		tw.proc = jobs.NewProcessor(a.m, tw.store, 2)
		tw.proc.Begin()
		tw.proc.PushJob(jobs.NewDeltaRepoJob("r"))
		tw.drain(2)
		tw.drain(2)
		_, failed := tw.history()
		for _, j := range failed {
			if strings.Contains(j.Error, "unknown job type 'Delta'") {
				vh.Known("delta-jobs-unhandled")
			}
		}
	})
}

//go:build go1.25

package vd

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C42: daemons that are ended, and killed, with work at hand.

const stopTags = "C42,C21,C22,C38"

// plan is what is done to one daemon after another over one base directory.
type plan struct {
	c     *vh.Case
	steps []stopStep
	dir   string
	base  string
	sock  string

	ops    []string
	fails  []string
	labels []string
	d      *vh.Daemon
	killed bool
	jobs   []*stopJob
	repos  map[string]map[string]bool // what the accepted jobs make
	maybe  map[string]bool            // repositories of requests nobody knows the end of
	n      int
	mixed  bool // requests were sent at the same time, on purpose
	left   int  // jobs about the slow repository the next daemon has to find, or -1
	mu     sync.Mutex
}

type stopJob struct {
	entry *jobs.JobEntry
	fails bool
	sure  bool // it was acknowledged
}

type stopStep struct {
	kind string
	v    []int
}

const slowRepo = "slow"

var stopPkgs []*vh.Pkg

func stopPackages() []*vh.Pkg {
	if stopPkgs == nil {
		for _, n := range []string{"nano", "vim", "zlib"} {
			for rel := 1; rel <= 2; rel++ {
				s := &vh.Spec{Name: n, Source: n, DistRel: "1", Arch: "x86_64", Summary: n, Desc: n, Filler: fmt.Sprint(n, rel),
					History: []vh.Upd{{Release: rel, Version: fmt.Sprintf("1.%d", rel), Comment: "c", Name: "J"}}}
				stopPkgs = append(stopPkgs, s.Build())
			}
		}
	}
	return stopPkgs
}

func (p *plan) op(f string, a ...any) {
	p.ops = append(p.ops, strings.ReplaceAll(fmt.Sprintf(f, a...), p.dir, "..."))
}

func (p *plan) fail(f string, a ...any) {
	p.mu.Lock()
	p.fails = append(p.fails, fmt.Sprintf(f, a...))
	p.mu.Unlock()
}

func (p *plan) label(l string) { p.labels = append(p.labels, l) }

func (p *plan) fifo() string {
	return filepath.Join(p.base, "assets", slowRepo, "distribution.xml")
}

const plainDist = "<PISI><SourceName>S</SourceName><Version>1</Version><Description>d</Description><Type>Core</Type></PISI>\n"

// release lets the job that waits for the assets go on, and later ones not wait.
func (p *plan) release() {
	fi, err := os.Lstat(p.fifo())
	if err != nil || fi.Mode().IsRegular() {
		return
	}
	f, err := os.OpenFile(p.fifo(), os.O_RDWR, 0)
	must(err)
	defer f.Close()
	tmp := filepath.Join(p.dir, "dist.new")
	must(os.WriteFile(tmp, []byte(plainDist), 0o644))
	vh.Own(tmp)
	must(os.Rename(tmp, p.fifo()))
	f.WriteString(plainDist)
	time.Sleep(60 * time.Millisecond)
}

// hold makes jobs about the slow repository wait.
func (p *plan) hold() {
	tmp := filepath.Join(p.dir, "pipe.new")
	must(syscall.Mkfifo(tmp, 0o644))
	vh.Own(tmp)
	must(os.Rename(tmp, p.fifo()))
}

func (p *plan) client() *libferry.Client { return libferry.NewClient(p.sock) }

// request asks for one thing; the job it stands for and what it is to do.
func (p *plan) request(cl *libferry.Client, v []int) {
	name := fmt.Sprintf("repo%d", p.n)
	p.n++
	pk := stopPackages()
	a, b := pk[v[1]%len(pk)], pk[v[2]%len(pk)]
	r0, r1 := p.repos["unstable"], p.repos["stable"]
	j := &stopJob{sure: true}
	var err error
	do := func() {}
	switch v[0] % 7 {
	case 0, 1:
		j.entry = jobs.NewCreateRepoJob(name)
		err = cl.CreateRepo(name)
		do = func() { p.repos[name] = map[string]bool{} }
	case 2, 3:
		paths := []string{filepath.Join(p.dir, "in", a.ID)}
		if b != a {
			paths = append(paths, filepath.Join(p.dir, "in", b.ID))
		}
		j.entry = jobs.NewBulkAddJob("unstable", paths)
		err = cl.ImportPackages("unstable", paths)
		do = func() { r0[a.ID], r0[b.ID] = true, true }
	case 4:
		j.entry = jobs.NewRemoveSourceJob("unstable", a.Source, -1)
		n := 0
		for _, x := range pk {
			if x.Source == a.Source && r0[x.ID] {
				n++
			}
		}
		j.fails = n == 0
		err = cl.RemoveSource("unstable", a.Source, -1)
		do = func() {
			for _, x := range pk {
				if x.Source == a.Source {
					delete(r0, x.ID)
				}
			}
		}
	case 5:
		j.entry = jobs.NewCopySourceJob("unstable", "stable", a.Source, -1, false)
		n := 0
		for _, x := range pk {
			if x.Source == a.Source && r0[x.ID] {
				n++
			}
		}
		j.fails = n == 0
		err = cl.CopySource("unstable", "stable", a.Source, -1, false)
		do = func() {
			for _, x := range pk {
				if x.Source == a.Source && r0[x.ID] {
					r1[x.ID] = true
				}
			}
		}
	case 6:
		j.entry = jobs.NewCreateRepoJob("unstable")
		j.fails = true
		err = cl.CreateRepo("unstable")
	}
	p.op("request %s", text(j.entry))
	if err != nil {
		p.fail("the request %s fails: %v", text(j.entry), err)
		return
	}
	if !j.fails {
		do()
	}
	p.jobs = append(p.jobs, j)
}

func (p *plan) start() {
	if p.d != nil {
		return
	}
	p.op("start")
	p.d = vh.StartDaemon(p.base, p.sock)
	if !p.d.Ready() {
		p.fail("the daemon does not start: %s", short(p.d.Output()))
		return
	}
	if p.left >= 0 {
		if n := p.slowJobs(); n > p.left {
			p.fail("the daemon was told to end while at a job, and the next one finds %d such jobs, not %d: the result is not remembered", n, p.left)
		}
		p.left = -1
	}
}

// slowJobs counts the jobs in the queue about the slow repository.
func (p *plan) slowJobs() int {
	n := 0
	for _, j := range p.status().CurrentJobs {
		if strings.Contains(j.Description, slowRepo) {
			n++
		}
	}
	return n
}

func (p *plan) status() *libferry.StatusRequest {
	cl := p.client()
	defer cl.Close()
	st, err := cl.GetStatus()
	if err != nil {
		p.fail("no status: %v", err)
		return &libferry.StatusRequest{}
	}
	return st
}

// running waits until the daemon is at the job that waits for the assets.
func (p *plan) running() bool {
	for end := time.Now().Add(endsWithin); time.Now().Before(end) && len(p.fails) == 0; time.Sleep(20 * time.Millisecond) {
		for _, j := range p.status().CurrentJobs {
			if !j.Timing.Begin.IsZero() && strings.Contains(j.Description, slowRepo) {
				return true
			}
		}
		if p.d.Exited(0) {
			p.fail("the daemon ends by itself: %s", short(p.d.Output()))
		}
	}
	p.fail("a job asked for is not begun")
	return false
}

func (p *plan) idle() bool {
	for end := time.Now().Add(2 * endsWithin); time.Now().Before(end) && len(p.fails) == 0; time.Sleep(20 * time.Millisecond) {
		if len(p.status().CurrentJobs) == 0 {
			return true
		}
		if p.d.Exited(0) {
			p.fail("the daemon ends by itself: %s", short(p.d.Output()))
		}
	}
	p.fail("the jobs asked for are not done")
	return false
}

// end tells the daemon to end; meanwhile others may ask for something.
func (p *plan) end(v []int, busy bool) {
	sig := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[v[0]%2]
	asking := v[1] % 3
	if busy {
		p.left = p.slowJobs() - 1
	}
	p.op("%v, with a job running: %v, while %d ask for something", sig, busy, asking)
	var wg sync.WaitGroup
	go1 := make(chan struct{})
	for i := 0; i < asking; i++ {
		name := fmt.Sprintf("late%d", p.n)
		p.n++
		wg.Add(1)
		go func() {
			defer wg.Done()
			cl := p.client()
			defer cl.Close()
			<-go1
			time.Sleep(time.Duration(v[2]%8) * time.Millisecond)
			err := cl.CreateRepo(name)
			p.mu.Lock()
			defer p.mu.Unlock()
			j := &stopJob{entry: jobs.NewCreateRepoJob(name), sure: err == nil}
			p.jobs = append(p.jobs, j)
			if j.sure {
				p.repos[name] = map[string]bool{}
				p.labels = append(p.labels, "asked and accepted while ending")
			} else {
				p.maybe[name] = true
				p.labels = append(p.labels, "asked and refused while ending")
			}
		}()
	}
	close(go1)
	if v[3]%2 == 0 {
		time.Sleep(time.Duration(v[2]/8%6) * time.Millisecond)
	}
	p.d.Signal(sig)
	if busy {
		d := time.Duration(20+v[4]%80) * time.Millisecond
		if v[4]/80%4 == 0 {
			d = []time.Duration{2, 4, 7, 12}[v[3]/2%4] * time.Second
			p.label("a long job at the end")
		}
		if p.d.Exited(d) {
			p.fail("the daemon is told to end, and does so in the middle of a job")
		}
		p.release()
	}
	if !p.d.Exited(endsWithin) {
		p.fail("the daemon does not end after %v", sig)
		p.d.Kill()
	}
	if o := p.d.Output(); strings.Contains(o, "panic: ") || strings.Contains(o, "fatal error: ") {
		p.fail("the daemon is told to end and crashes: %s", short(o))
	}
	wg.Wait()
	p.d = nil
}

func (p *plan) run() {
	defer func() {
		if p.d != nil {
			p.d.Kill()
		}
	}()
	p.start()
	for _, s := range p.steps {
		if len(p.fails) > 0 {
			return
		}
		p.start()
		switch s.kind {
		case "request":
			cl := p.client()
			for i := 0; i < len(s.v)/4; i++ {
				p.request(cl, s.v[4*i:4*i+4])
			}
			cl.Close()
		case "wait":
			time.Sleep(time.Duration(s.v[0]*3) * time.Millisecond)
		case "end":
			p.label("ended")
			p.end(s.v, false)
		case "kill":
			p.op("kill")
			p.label("killed")
			p.d.Kill()
			p.d, p.killed = nil, true
		case "slow-end", "slow-kill":
			p.hold()
			cl := p.client()
			p.op("request a job that will wait")
			if err := cl.IndexRepo(slowRepo); err != nil {
				p.fail("the request fails: %v", err)
				return
			}
			p.jobs = append(p.jobs, &stopJob{entry: jobs.NewIndexRepoJob(slowRepo), sure: true})
			for i := 0; i < s.v[5]%3; i++ {
				p.request(cl, s.v[6+4*i:10+4*i])
			}
			cl.Close()
			if !p.running() {
				return
			}
			if s.kind == "slow-end" {
				p.label("ended in a job")
				p.end(s.v, true)
			} else {
				p.op("kill in that job")
				p.label("killed in a job")
				p.d.Kill()
				p.d, p.killed = nil, true
				p.release()
			}
		}
	}
	if len(p.fails) > 0 {
		return
	}
	p.start()
	p.idle()
	if len(p.fails) > 0 {
		return
	}
	p.judge()
}

func describe(e *jobs.JobEntry) string {
	h, err := jobs.NewJobHandler(e)
	if err != nil {
		vh.Abort("%s: %v", text(e), err)
	}
	return h.Describe()
}

func (p *plan) judge() {
	st := p.status()
	all := append(append([]*libferry.Job{}, st.CompletedJobs...), st.FailedJobs...)
	type tally struct{ done, failed int }
	seen := map[string]*tally{}
	for _, j := range all {
		t := seen[j.Description]
		if t == nil {
			t = &tally{}
			seen[j.Description] = t
		}
		if j.Failed {
			t.failed++
		} else {
			t.done++
		}
	}
	want, unsure := map[string]*tally{}, map[string]bool{}
	for _, j := range p.jobs {
		d := describe(j.entry)
		if !j.sure {
			unsure[d] = true
			continue
		}
		if want[d] == nil {
			want[d] = &tally{}
		}
		if j.fails {
			want[d].failed++
		} else {
			want[d].done++
		}
	}
	for _, d := range vh.SortedKeys(want) {
		w, g := want[d], seen[d]
		if g == nil {
			g = &tally{}
		}
		if p.killed {
			// what a killed daemon was doing may be done twice
			if g.done+g.failed < w.done+w.failed {
				p.fail("%q was asked for %d times, and is remembered %d times", d, w.done+w.failed, g.done+g.failed)
			}
		} else if *g != *w {
			p.fail("%q was to be done %d times and to fail %d times; %d and %d are remembered", d, w.done, w.failed, g.done, g.failed)
		}
	}
	for d := range seen {
		if want[d] == nil && !unsure[d] {
			p.fail("%q is remembered, and nobody asked for it", d)
		}
	}
	sort.SliceStable(all, func(a, b int) bool { return all[a].Timing.Queued.Before(all[b].Timing.Queued) })
	for i := 1; i < len(all); i++ {
		late := strings.Contains(all[i-1].Description, "'late") && strings.Contains(all[i].Description, "'late")
		if late || p.mixed {
			continue // asked for at the same time
		}
		if a, b := all[i-1], all[i]; b.Timing.Begin.Before(a.Timing.Begin) && a.Timing.Queued.Before(b.Timing.Queued) {
			p.fail("%q was queued before %q and begun after it", a.Description, b.Description)
		}
	}
	p.op("kill")
	p.d.Kill()
	p.d = nil
	// what there is now
	m, err := core.NewManager(p.base)
	if err != nil {
		p.fail("the base directory cannot be opened: %v", err)
		return
	}
	defer m.Close()
	rs, err := m.GetRepos()
	if err != nil {
		p.fail("the repositories cannot be listed: %v", err)
		return
	}
	have := map[string]bool{}
	for _, r := range rs {
		have[r.ID] = true
		if p.repos[r.ID] == nil && !p.maybe[r.ID] {
			p.fail("there is a repository %q nobody asked for", r.ID)
		}
	}
	for _, r := range vh.SortedKeys(p.repos) {
		if !have[r] {
			p.fail("the repository %q is missing", r)
			continue
		}
		var got []string
		names, err := m.GetPackageNames(r)
		if err != nil {
			p.fail("%q: %v", r, err)
			continue
		}
		for _, n := range names {
			ps, err := m.GetPackages(r, n)
			if err != nil {
				p.fail("%q %q: %v", r, n, err)
				continue
			}
			for _, x := range ps {
				got = append(got, x.GetID())
			}
		}
		sort.Strings(got)
		if w := vh.SortedKeys(p.repos[r]); strings.Join(got, " ") != strings.Join(w, " ") {
			p.fail("%q holds %v, the jobs asked for make it hold %v", r, got, w)
		}
	}
}

var (
	stopOnce sync.Once
	stopDir  string
)

// stopBase is a base directory with the repositories the plans start from.
func stopBase(dir string) string {
	stopOnce.Do(func() {
		stopDir = filepath.Join(vh.ScratchRoot, "stopbase")
		must(os.Mkdir(stopDir, 0o755))
		m, err := core.NewManager(stopDir)
		if err != nil {
			vh.Abort("manager: %v", err)
		}
		for _, r := range []string{"unstable", "stable", slowRepo} {
			if err := m.CreateRepo(r); err != nil {
				vh.Abort("create: %v", err)
			}
		}
		m.Close()
		vh.Unprivileged()
	})
	base := filepath.Join(dir, "base")
	vh.CopyTree(stopDir, base)
	in := filepath.Join(dir, "in")
	must(os.Mkdir(in, 0o755))
	for _, p := range stopPackages() {
		p.WriteTo(in)
	}
	return base
}

func aPlan(t *rapid.T) *plan {
	p := &plan{left: -1, maybe: map[string]bool{}, repos: map[string]map[string]bool{"unstable": {}, "stable": {}, slowRepo: {}}}
	vs := func(n int) []int { return rapid.SliceOfN(rapid.IntRange(0, 1023), n, n).Draw(t, "v") }
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "sessions"); i < n; i++ {
		if rapid.IntRange(0, 3).Draw(t, "asks") > 0 {
			p.steps = append(p.steps, stopStep{"request", vs(4 * rapid.IntRange(1, 2).Draw(t, "requests"))})
		}
		if rapid.Bool().Draw(t, "waits") {
			p.steps = append(p.steps, stopStep{"wait", vs(1)})
		}
		k := rapid.SampledFrom([]string{"end", "end", "kill", "slow-end", "slow-end", "slow-end", "slow-kill"}).Draw(t, "end")
		p.steps = append(p.steps, stopStep{k, vs(18)})
	}
	return p
}

// TestStop ends daemons that have something to do.
func TestStop(t *testing.T) {
	vh.SetRule("base directories, 12 at a time, with a daemon each, asked for a few jobs (new repositories, imports, copies and removals of sources, some of which have to fail), then ended by SIGTERM or SIGINT or killed, also in the middle of a job that waits for its input, while others ask for more; after one or two such sessions a last one carries out what is left. Every job accepted has to be remembered with its result, exactly once if no daemon was killed, begun in the order of queueing, and the repositories have to be what the jobs make of them. Non-trivial: a daemon is ended or killed in the middle of a job.")
	rapid.Check(t, func(t *rapid.T) {
		var plans []*plan
		for i := 0; i < 12; i++ {
			p := aPlan(t)
			p.c = vh.Begin(t)
			defer p.c.Cleanup()
			p.dir = p.c.Dir()
			os.Chmod(p.dir, 0o777)
			p.base = stopBase(p.dir)
			p.sock = filepath.Join(p.dir, "s")
			vh.Own(p.dir)
			plans = append(plans, p)
		}
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p.run()
			}()
		}
		wg.Wait()
		for _, p := range plans {
			p.c.Ops = p.ops
			for _, l := range p.labels {
				p.c.Label(l)
				if strings.Contains(l, "in a job") {
					p.c.Nontrivial()
				}
			}
			if len(p.fails) > 0 {
				p.c.Fail(stopTags, "%s", strings.ReplaceAll(strings.Join(p.fails, "; "), p.dir, "..."))
			}
			p.c.End()
		}
	})
}

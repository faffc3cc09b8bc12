//go:build go1.25

package vd

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C48: requests next to clients that are slow, stuck or gone, and next to jobs
// that take their time.

const (
	rudeTags   = "C48"
	answeredIn = 30 * time.Second
)

// visit is one client that isn't polite.
type visit struct {
	kind string
	v    []int
}

type rudePlan struct {
	plan
	held   bool // the daemon is busy with a job that waits
	visits []visit
	asks   []visit
	end    int
	fat    bool // there is a queue of a few hundred kilobytes, which is not waited for
	conns  []net.Conn
	drips  sync.WaitGroup
}

// letGo ends the wait of the job the daemon is busy with.
func (p *rudePlan) letGo() {
	if p.held {
		p.release()
	}
	p.held = false
}

// busy gives the daemon a job that waits for somebody else.
func (p *rudePlan) busy() {
	if !p.held {
		return
	}
	p.op("request a job that will wait")
	cl := p.client()
	defer cl.Close()
	if !p.fat {
		p.hold()
		if err := cl.IndexRepo(slowRepo); err != nil {
			p.fail("the request fails: %v", err)
			return
		}
	}
	p.jobs = append(p.jobs, &stopJob{entry: jobs.NewIndexRepoJob(slowRepo), sure: true})
	begun := 0
	for end := time.Now().Add(2 * endsWithin); time.Now().Before(end) && len(p.fails) == 0; time.Sleep(20 * time.Millisecond) {
		st := p.status()
		for _, j := range st.CurrentJobs {
			if !j.Timing.Begin.IsZero() {
				begun++
			}
		}
		if begun > 5 {
			p.label("busy")
			return
		}
		if len(st.CompletedJobs)+len(st.FailedJobs) > 0 {
			p.label("a job that was to wait does not")
			p.release()
			p.held = false
			return
		}
	}
	p.fail("a job asked for is not begun")
}

// raw is a request as it is sent; a body keeps it a request of one piece.
func (p *rudePlan) raw(v []int, name string) (msg string, body int, e *jobs.JobEntry, done func()) {
	post := func(path string, req any) string {
		b, err := json.Marshal(req)
		must(err)
		head := fmt.Sprintf("POST /api/v1/%s HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", path, len(b))
		body = len(head)
		return head + string(b)
	}
	switch v[0] % 3 {
	case 0:
		msg = "GET /api/v1/create/repo/" + name + " HTTP/1.1\r\nHost: x\r\nX-Padding: abcdefgh\r\n\r\n"
		return msg, len(msg), jobs.NewCreateRepoJob(name), func() { p.repos[name] = map[string]bool{} }
	case 1:
		msg = post("clone/"+slowRepo, &libferry.CloneRepoRequest{CloneName: name, CopyAll: true})
		return msg, body, jobs.NewCloneRepoJob(slowRepo, name, true), func() { p.repos[name] = map[string]bool{} }
	default:
		a := stopPackages()[v[1]%len(stopPackages())]
		path := filepath.Join(p.dir, "in", name+".eopkg")
		msg = post("import/"+name, &libferry.ImportRequest{Path: []string{path, a.ID}})
		return msg, body, jobs.NewBulkAddJob(name, []string{path, a.ID}), func() {}
	}
}

func (p *rudePlan) dial() net.Conn {
	c, err := net.Dial("unix", p.sock)
	if err != nil {
		p.fail("the daemon takes no more connections: %v", err)
		return nil
	}
	p.conns = append(p.conns, c)
	return c
}

func (p *rudePlan) visit(x visit) {
	name := fmt.Sprintf("rude%d", p.n)
	p.n++
	p.label(x.kind)
	p.op("client %s %v", x.kind, x.v)
	n := 1
	if x.kind == "a crowd" {
		n = 40 + x.v[0]%160
	}
	var c net.Conn
	for i := 0; i < n; i++ {
		if c = p.dial(); c == nil {
			return
		}
	}
	msg, body, e, done := p.raw(x.v, name)
	switch x.kind {
	case "silent", "a crowd":
	case "half a head":
		io.WriteString(c, msg[:1+x.v[2]%(body-2)])
	case "half a body":
		if body == len(msg) {
			msg = msg[:body-2]
			io.WriteString(c, msg)
			return
		}
		io.WriteString(c, msg[:body+x.v[2]%(len(msg)-body)])
	case "half and gone":
		io.WriteString(c, msg[:x.v[2]%(len(msg)-1)])
		time.Sleep(time.Duration(x.v[3]%4) * time.Millisecond)
		c.Close()
	case "asks and is gone":
		io.WriteString(c, msg)
		c.Close()
		p.mu.Lock()
		p.jobs = append(p.jobs, &stopJob{entry: e, fails: x.v[0]%3 == 2})
		p.maybe[name] = true
		p.mu.Unlock()
	case "never reads":
		what := []string{"status", "list/repos", "list/pool"}[x.v[0]%3]
		if p.fat {
			what = "status"
		}
		go func() {
			c.SetWriteDeadline(time.Now().Add(time.Second))
			for i := 0; i < 40; i++ {
				if _, err := io.WriteString(c, strings.Repeat("GET /api/v1/"+what+" HTTP/1.1\r\nHost: x\r\n\r\n", 400)); err != nil {
					return
				}
			}
		}()
		time.Sleep(50 * time.Millisecond)
	case "a long head":
		go func() {
			c.SetWriteDeadline(time.Now().Add(time.Second))
			io.WriteString(c, "GET / HTTP/1.1\r\n")
			for i := 0; i < 1000; i++ {
				if _, err := io.WriteString(c, "X-H: "+strings.Repeat("x", 4000)+"\r\n"); err != nil {
					return
				}
			}
		}()
	case "noise":
		b := make([]byte, 64+x.v[0])
		for i := range b {
			b[i] = byte(x.v[i%len(x.v)] * (i + 3))
		}
		c.SetWriteDeadline(time.Now().Add(time.Second))
		c.Write(b)
	case "slow":
		// slow, and polite: it gets what it asks for
		pieces := 3 + x.v[2]%20
		pause := time.Duration(200+x.v[3]*2) * time.Millisecond / time.Duration(pieces)
		p.drips.Add(1)
		go func() {
			defer p.drips.Done()
			for i := 0; i < pieces; i++ {
				if _, err := io.WriteString(c, msg[len(msg)*i/pieces:len(msg)*(i+1)/pieces]); err != nil {
					p.fail("a request sent slowly is cut off: %v", err)
					return
				}
				time.Sleep(pause)
			}
			b := make([]byte, 15)
			c.SetReadDeadline(time.Now().Add(answeredIn))
			_, err := io.ReadFull(c, b)
			p.mu.Lock()
			defer p.mu.Unlock()
			if err != nil {
				p.fails = append(p.fails, fmt.Sprintf("a request sent slowly is not answered: %v", err))
				return
			}
			if string(b) != "HTTP/1.1 200 OK" {
				p.fails = append(p.fails, fmt.Sprintf("a request sent slowly is answered with %q", b))
				return
			}
			done()
			p.jobs = append(p.jobs, &stopJob{entry: e, sure: true, fails: x.v[0]%3 == 2})
		}()
	}
}

// ask makes a polite request, which is answered soon.
func (p *rudePlan) ask(x visit) {
	cl := p.client()
	defer cl.Close()
	done := make(chan bool)
	go func() {
		defer close(done)
		var err error
		switch x.kind {
		case "job":
			p.request2(cl, x.v)
		case "status":
			_, err = cl.GetStatus()
		case "repos":
			_, err = cl.GetRepos()
		case "pool":
			_, err = cl.GetPoolItems()
		case "reset":
			if !p.held {
				return // there may be results to remember
			}
			if err = cl.ResetCompleted(); err == nil {
				err = cl.ResetFailed()
			}
		}
		if err != nil {
			p.fail("%s: %v", x.kind, err)
		}
	}()
	if x.kind != "job" {
		p.op("ask for %s", x.kind)
	}
	select {
	case <-done:
	case <-time.After(answeredIn):
		p.fail("the request for %s is not answered", x.kind)
		p.d.Kill()
		<-done
	}
}

// request2 is request, next to slow clients.
func (p *rudePlan) request2(cl *libferry.Client, v []int) {
	p.mu.Lock()
	// only the polite requests change these two
	q := &plan{dir: p.dir, n: p.n, repos: map[string]map[string]bool{"unstable": p.repos["unstable"], "stable": p.repos["stable"]}}
	p.n++
	p.mu.Unlock()
	q.request(cl, v)
	p.mu.Lock()
	defer p.mu.Unlock()
	for r := range q.repos {
		p.repos[r] = q.repos[r]
	}
	p.ops = append(p.ops, q.ops...)
	p.fails = append(p.fails, q.fails...)
	p.jobs = append(p.jobs, q.jobs...)
}

// pile queues jobs with long names behind one that waits.
func (p *rudePlan) pile() {
	p.hold()
	st, err := jobs.NewStore(p.base)
	if err != nil {
		vh.Abort("store: %v", err)
	}
	defer vh.Own(p.dir)
	defer st.Close()
	must(st.PushSequentialJob(jobs.NewIndexRepoJob(slowRepo)))
	for i := 0; i < 60; i++ {
		must(st.PushSequentialJob(jobs.NewIndexRepoJob(strings.Repeat("x", 6000) + fmt.Sprint(i))))
	}
}

func (p *rudePlan) play() {
	defer func() {
		if p.d != nil {
			p.d.Kill()
		}
		p.drips.Wait()
		for _, c := range p.conns {
			c.Close()
		}
	}()
	if p.fat {
		p.label("a long queue")
		p.pile()
	}
	p.start()
	if len(p.fails) > 0 {
		return
	}
	p.busy()
	for i := 0; i < len(p.visits) || i < len(p.asks); i++ {
		if i < len(p.visits) && len(p.fails) == 0 {
			p.visit(p.visits[i])
		}
		if i < len(p.asks) && len(p.fails) == 0 {
			p.ask(p.asks[i])
		}
	}
	if len(p.fails) > 0 {
		return
	}
	p.drips.Wait()
	for _, k := range []string{"status", "repos", "pool"} {
		if len(p.fails) == 0 {
			p.ask(visit{kind: k})
		}
	}
	if p.fat {
		p.op("kill")
		return
	}
	p.letGo()
	if len(p.fails) > 0 || !p.idle() {
		return
	}
	if p.end%2 == 0 {
		p.op("end")
		p.label("ended with clients")
		p.d.Signal(syscall.SIGTERM)
		if !p.d.Exited(endsWithin) {
			p.fail("the daemon does not end while clients are connected")
			return
		}
		if o := p.d.Output(); strings.Contains(o, "panic: ") || strings.Contains(o, "fatal error: ") {
			p.fail("the daemon is told to end and crashes: %s", short(o))
			return
		}
		p.d = nil
		p.start()
		if len(p.fails) > 0 {
			return
		}
	}
	if p.d.Exited(0) {
		p.fail("the daemon ends by itself: %s", short(p.d.Output()))
		return
	}
	p.judge()
}

func aRudePlan(t *rapid.T) *rudePlan {
	p := &rudePlan{plan: plan{left: -1, mixed: true, maybe: map[string]bool{}, repos: map[string]map[string]bool{"unstable": {}, "stable": {}, slowRepo: {}}}}
	vs := func() []int { return rapid.SliceOfN(rapid.IntRange(0, 1023), 4, 4).Draw(t, "v") }
	p.held = rapid.IntRange(0, 2).Draw(t, "held") > 0
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "visits"); i < n; i++ {
		p.visits = append(p.visits, visit{rapid.SampledFrom([]string{"silent", "a crowd", "half a head", "half a body", "half a body", "half and gone", "half and gone", "asks and is gone", "never reads", "never reads", "a long head", "noise", "slow", "slow"}).Draw(t, "visit"), vs()})
	}
	for i, n := 0, rapid.IntRange(1, 7).Draw(t, "asks"); i < n; i++ {
		p.asks = append(p.asks, visit{rapid.SampledFrom([]string{"job", "job", "status", "repos", "pool", "reset"}).Draw(t, "ask"), vs()})
	}
	p.fat = p.held && rapid.IntRange(0, 2).Draw(t, "fat") == 0
	p.end = rapid.IntRange(0, 3).Draw(t, "end")
	return p
}

// TestRude has clients that do not behave.
func TestRude(t *testing.T) {
	vh.SetRule("base directories, 8 at a time, with a daemon each; the daemon is busy with a job that waits for its input, or is not; up to six clients are silent, many, slow, stop in the middle of a request or go away there, never read what they are sent, or send noise; between them other clients make up to seven requests. Each of those and each slow one has to be answered; after the wait every job accepted has to be done, once, and none of half a request; the daemon has to end while clients stay. Non-trivial: a client that does not behave next to one that does, or a request while the daemon is busy.")
	rapid.Check(t, func(t *rapid.T) {
		var plans []*rudePlan
		for i := 0; i < 8; i++ {
			p := aRudePlan(t)
			p.c = vh.Begin(t)
			defer p.c.Cleanup()
			p.dir = p.c.Dir()
			os.Chmod(p.dir, 0o777)
			p.base = stopBase(p.dir)
			p.sock = filepath.Join(p.dir, "s")
			vh.Own(p.dir)
			plans = append(plans, p)
		}
		var wg sync.WaitGroup
		for _, p := range plans {
			wg.Add(1)
			go func() {
				defer wg.Done()
				p.play()
			}()
		}
		wg.Wait()
		for _, p := range plans {
			p.c.Ops = p.ops
			for _, l := range p.labels {
				p.c.Label(l)
			}
			if len(p.labels) > 0 {
				p.c.Nontrivial()
			}
			if len(p.fails) > 0 {
				p.c.Fail(rudeTags, "%s", strings.ReplaceAll(strings.Join(p.fails, "; "), p.dir, "..."))
			}
			p.c.End()
		}
	})
}

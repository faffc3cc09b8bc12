//go:build go1.25

package vd

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C34: daemons over one base directory, started, ended and killed.

type fleet struct {
	*vh.Case
	t     *rapid.T
	base  string
	lock  string
	owner *vh.Daemon
	// going is an owner that was told to end, and might not be gone yet
	going []*vh.Daemon
	all   []*vh.Daemon
	n     int
}

const endsWithin = 60 * time.Second

func (f *fleet) sock() string {
	return filepath.Join(f.Dir(), rapid.SampledFrom([]string{"s0", "s0", "s1", "s2"}).Draw(f.t, "socket"))
}

func (f *fleet) start() *vh.Daemon {
	d := vh.StartDaemon(f.base, f.sock())
	f.all = append(f.all, d)
	return d
}

// pid is what the lockfile says.
func (f *fleet) pid() string {
	b, _ := os.ReadFile(f.lock)
	return strings.TrimSpace(string(b))
}

func (f *fleet) refused(d *vh.Daemon) {
	if d.ExitCode() == 0 {
		f.Fail("C34", "a second daemon ends as if all was well: %q", short(d.Output()))
	}
	if d.Output() == "" {
		f.Fail("C34", "a second daemon ends without a word")
	}
}

// starting has some daemons come at once.
func (f *fleet) starting(n int) {
	var ds []*vh.Daemon
	for i := 0; i < n; i++ {
		ds = append(ds, f.start())
	}
	var socks []string
	for _, d := range ds {
		socks = append(socks, filepath.Base(d.Sock))
	}
	f.Op("start %d: %s", n, strings.Join(socks, " "))
	if n > 1 || f.owner != nil || len(f.going) > 0 {
		f.Nontrivial()
	}
	// all but one have to end, and the one that does not answers
	end := time.Now().Add(endsWithin)
	for {
		var up []*vh.Daemon
		for _, d := range ds {
			if !d.Exited(0) {
				up = append(up, d)
			}
		}
		if len(up) == 0 {
			break
		}
		if len(up) == 1 && f.owner == nil && f.pid() == strconv.Itoa(up[0].Cmd.Process.Pid) && vh.Answers(up[0].Sock) {
			break
		}
		if f.owner != nil && f.owner.Exited(0) {
			f.Fail("C34", "a daemon ends because another is started: %q", short(f.owner.Output()))
			return
		}
		// no two answer at the same time
		if len(up) > 1 && up[0].Sock != up[1].Sock && vh.Answers(up[0].Sock) && vh.Answers(up[1].Sock) && vh.Answers(up[0].Sock) {
			f.Fail("C34", "two daemons over the same base directory answer")
			return
		}
		if time.Now().After(end) {
			f.Fail("C34", "%d daemons over the same base directory do not end", len(up))
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
	var up *vh.Daemon
	for _, d := range ds {
		if d.Exited(0) {
			f.refused(d)
		} else {
			up = d
		}
	}
	switch {
	case f.owner != nil:
		if up != nil {
			f.Fail("C34", "another daemon starts over the base directory of one that runs")
		}
		f.check()
	case up != nil:
		f.owner = up
		f.Label("takes over")
	case len(f.going) == 0:
		var o []string
		for _, d := range ds {
			o = append(o, short(d.Output()))
		}
		f.Fail("C34", "no daemon has the base directory, and %d starting at once are all refused: %q", n, o)
	default:
		f.Label("refused by one that is about to end")
	}
	if f.owner != nil {
		f.gone()
	}
}

// gone waits for those that were told to end: the base directory has been taken over.
func (f *fleet) gone() {
	for _, d := range f.going {
		if !d.Exited(endsWithin) {
			f.Fail("C34", "a daemon that was told to end is still there, and another has taken over")
		}
	}
	f.going = nil
}

// check looks at the owner.
func (f *fleet) check() {
	if f.owner == nil {
		return
	}
	if f.owner.Exited(0) || !vh.Answers(f.owner.Sock) {
		f.Fail("C34", "the daemon that has the base directory does not answer any more: %q", short(f.owner.Output()))
		return
	}
	if p := f.pid(); p != strconv.Itoa(f.owner.Cmd.Process.Pid) {
		f.Fail("C34", "the lockfile names %q, and the owner is %d", p, f.owner.Cmd.Process.Pid)
	}
}

var leftovers = []string{"absent", "empty", "alive", "garbage", "longer", "negative", "huge", "overflow", "big"}

func (f *fleet) step() {
	switch rapid.SampledFrom([]string{"one", "one", "several", "kill", "kill", "term", "term-start", "left", "socket", "log"}).Draw(f.t, "step") {
	case "one":
		f.starting(1)
	case "several":
		f.starting(rapid.IntRange(2, 4).Draw(f.t, "count"))
	case "kill":
		if f.owner == nil {
			return
		}
		f.Op("kill")
		f.Label("killed")
		f.owner.Kill()
		f.owner = nil
	case "term":
		if f.owner == nil {
			return
		}
		f.Op("terminate")
		f.owner.Signal(syscall.SIGTERM)
		if !f.owner.Exited(endsWithin) {
			f.Fail("C34", "a daemon that was told to end does not")
			f.owner.Kill()
		}
		f.owner = nil
	case "term-start":
		if f.owner == nil {
			return
		}
		f.Op("terminate, and at once")
		f.owner.Signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[rapid.IntRange(0, 2).Draw(f.t, "signal")])
		time.Sleep(time.Duration(rapid.IntRange(0, 8000).Draw(f.t, "pause")) * time.Microsecond)
		f.going = append(f.going, f.owner)
		f.owner = nil
		f.starting(rapid.IntRange(1, 3).Draw(f.t, "count"))
	case "left":
		if f.owner != nil || len(f.going) > 0 {
			return
		}
		k := rapid.SampledFrom(leftovers).Draw(f.t, "left")
		f.Op("the lockfile is left as: %s", k)
		f.Label("left " + k)
		var b string
		switch k {
		case "absent":
			os.Remove(f.lock)
			return
		case "alive":
			b = strconv.Itoa(os.Getpid())
		case "garbage":
			b = "not a number"
		case "longer":
			b = "123456789 and more than that"
		case "negative":
			b = "-1"
		case "huge":
			b = "2147483646"
		case "overflow":
			b = "99999999999999999999999"
		case "big":
			b = strings.Repeat("7", 100000)
		}
		os.Remove(f.lock)
		must(os.WriteFile(f.lock, []byte(b), 0o644))
		vh.Own(f.base)
	case "socket":
		// what a killed one left behind disappears
		if f.owner != nil || len(f.going) > 0 {
			return
		}
		f.Op("the sockets are removed")
		for _, s := range []string{"s0", "s1", "s2"} {
			os.Remove(filepath.Join(f.Dir(), s))
		}
	case "log":
		f.check()
	}
}

// TestDaemons starts, ends and kills daemons over one base directory.
func TestDaemons(t *testing.T) {
	vh.SetRule("ferryd is started over one base directory, one at a time or several at once, on the same or on other sockets, ended and killed, in generated order, with generated contents of the lockfile after a death; some over a base with a job that never ends. Non-trivial: one is started while another runs, is about to end, or starts as well.")
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		f := &fleet{Case: c, t: t}
		defer func() {
			for _, d := range f.all {
				d.Kill()
			}
		}()
		busy := rapid.IntRange(0, 5).Draw(t, "busy") == 3
		if busy {
			f.base = blockedBase(c.Dir())
			f.lock = filepath.Join(f.base, "ferryd.lock")
			f.busy()
		} else {
			f.base = filepath.Join(c.Dir(), "base")
			must(os.Mkdir(f.base, 0o755))
			os.Chmod(c.Dir(), 0o755)
			vh.Own(c.Dir())
			f.lock = filepath.Join(f.base, "ferryd.lock")
			for n := rapid.IntRange(3, 9).Draw(t, "steps"); n > 0; n-- {
				f.step()
			}
			for _, d := range f.going {
				if !d.Exited(endsWithin) {
					f.Fail("C34", "a daemon that was told to end does not")
				}
			}
			f.going = nil
			// whatever happened, the next one starts if it is the only one
			if f.owner == nil {
				f.starting(1)
			}
			f.check()
		}
		c.End()
	})
}

// busy ends a daemon in the middle of a job: it may take its time, and nobody
// takes over until it is gone.
func (f *fleet) busy() {
	f.Op("start one that will be busy")
	f.starting(1)
	if f.owner == nil {
		return
	}
	a := f.owner
	end := time.Now().Add(endsWithin)
	for running := false; !running; {
		if time.Now().After(end) {
			vh.Abort("the blocking job does not start")
		}
		time.Sleep(50 * time.Millisecond)
		st, err := libferry.NewClient(a.Sock).GetStatus()
		running = err == nil && len(st.CurrentJobs) == 1 && !st.CurrentJobs[0].Timing.Begin.IsZero()
	}
	f.Op("it is busy; terminate")
	f.Label("terminated while busy")
	f.Nontrivial()
	a.Signal(syscall.SIGTERM)
	time.Sleep(time.Duration(rapid.IntRange(0, 100).Draw(f.t, "pause")) * time.Millisecond)
	for i := rapid.IntRange(1, 3).Draw(f.t, "others"); i > 0; i-- {
		if a.Exited(0) {
			break
		}
		b := f.start()
		f.Op("start another on %s", filepath.Base(b.Sock))
		if !b.Exited(5 * time.Second) {
			if a.Exited(0) {
				return
			}
			f.Fail("C34", "another daemon starts over the base directory of one that is still ending")
			return
		}
		if a.Exited(0) {
			return
		}
		f.refused(b)
		if p := f.pid(); p != fmt.Sprint(a.Cmd.Process.Pid) {
			if !a.Exited(0) {
				f.Fail("C34", "the lockfile names %q, and the owner is %d", p, a.Cmd.Process.Pid)
			}
			return
		}
	}
	f.Op("kill")
	a.Kill()
	f.owner = nil
	f.starting(1)
	f.check()
}

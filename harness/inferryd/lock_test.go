//go:build go1.25

package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"testing"

	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
	"github.com/getsolus/ferryd/src/zverif/vos"
)

// C34: several processes are played by goroutines of which one runs at a time.
// Each call that the lock makes into the operating system is a point at which
// another one may go on, or at which the process may die. A real process
// stands for the PID of each, and the kernel's lock is the real one.

func TestMain(m *testing.M) { vh.Main(m) }

type stand struct{ cmd *exec.Cmd }

var spares []*stand

func newStand() *stand {
	if n := len(spares); n > 0 {
		s := spares[n-1]
		spares = spares[:n-1]
		return s
	}
	c := exec.Command("sleep", "3600")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := c.Start(); err != nil {
		vh.Abort("sleep: %v", err)
	}
	return &stand{c}
}

func (s *stand) pid() int { return s.cmd.Process.Pid }

func (s *stand) kill() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

type dying struct{}

type proc struct {
	name   string
	stand  *stand
	script []string
	lock   *LockFile
	files  []*os.File
	resume chan bool // false: die here
	yield  chan struct{}
	dead   bool
	done   bool // the script has ended
	owner  bool
	call   string // inside of which call

	// about the attempt under way
	trying    bool
	disturbed bool          // somebody else was active since it was opened
	owned     map[*proc]int // owners from its beginning to now
	named     map[int]bool  // whom a refusal may name
	points    int
}

type world struct {
	*vh.Case
	procs []*proc
	cur   *proc
	path  string
	// a process that has nothing to do with it has the PID in the file
	foreignPID bool
}

func (w *world) handler(ev vos.Event) vos.Verdict {
	p := w.cur
	if p == nil {
		return vos.Verdict{}
	}
	p.points++
	p.yield <- struct{}{}
	if !<-p.resume {
		panic(dying{})
	}
	return vos.Verdict{}
}

// body is what a process does.
func (p *proc) body(w *world) {
	defer close(p.yield)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(dying); !ok {
				panic(r)
			}
		}
	}()
	step := func() {
		p.yield <- struct{}{}
		if !<-p.resume {
			panic(dying{})
		}
	}
	if !<-p.resume {
		return
	}
	for _, s := range p.script {
		switch s {
		case "open":
			w.begin(p, "open")
			l, err := NewLockFile(w.path)
			w.end(p)
			if err != nil {
				w.Fail("C34", "%s: opening the lockfile fails: %v", p.name, err)
				return
			}
			p.lock = l
			w.Op("%s has opened it", p.name)
		case "lock":
			if p.owner {
				continue
			}
			p.call = "lock"
			err := p.lock.Lock()
			p.call = ""
			w.locked(p, err)
		case "unlock":
			p.call, p.owner = "unlock", false
			w.Op("%s unlocks", p.name)
			p.lock.Unlock()
			p.call = ""
		case "clean":
			p.call, p.owner = "clean", false
			w.Op("%s cleans", p.name)
			p.lock.Clean()
			p.call = ""
			w.Op("%s has cleaned", p.name)
		case "work":
		}
		step()
	}
}

// begin opens an attempt.
func (w *world) begin(p *proc, call string) {
	p.call, p.trying, p.disturbed = call, true, false
	p.owned, p.named = map[*proc]int{}, map[int]bool{}
	for _, q := range w.procs {
		if q != p && q.owner && !q.dead {
			p.owned[q] = 1
		}
	}
	w.observe()
}

func (w *world) end(p *proc) { p.call = "" }

// observe looks at everybody for those whose attempts are under way.
func (w *world) observe() {
	for _, p := range w.procs {
		if !p.trying {
			continue
		}
		for _, q := range w.procs {
			if q == p || q.dead {
				delete(p.owned, q)
				continue
			}
			if !q.owner {
				delete(p.owned, q)
			}
			if q.owner || q.call != "" {
				p.disturbed = true
				p.named[q.stand.pid()] = true
			}
		}
	}
}

// locked judges how an attempt ended.
func (w *world) locked(p *proc, err error) {
	w.observe()
	if err == nil {
		w.Op("%s has the lock", p.name)
		p.owner = true
		for _, q := range w.procs {
			if q != p && q.owner && !q.dead {
				w.Fail("C34", "%s and %s both have the lock", q.name, p.name)
			}
		}
		if len(p.owned) > 0 {
			w.Fail("C34", "%s takes the lock from its owner", p.name)
		}
		return
	}
	w.Op("%s is refused: %v", p.name, err)
	w.Label("refused")
	if !p.disturbed {
		w.Fail("C34", "%s is refused (%v), and nobody else had anything to do with the lock", p.name, err)
	}
	if errors.Is(err, ErrOwnedLockFile) && !w.foreignPID && !p.named[p.lock.GetOwnerPID()] {
		w.Fail("C34", "%s is refused, naming %d, which did not have the lock at any time of the attempt", p.name, p.lock.GetOwnerPID())
	}
}

func (w *world) die(p *proc) {
	p.dead, p.owner, p.call = true, false, ""
	p.stand.kill()
	for _, f := range p.files {
		f.Close()
	}
}

var staleContents = []string{"absent", "empty", "dead", "dead-newline", "dead-long", "unrelated", "own", "garbage", "zero", "negative", "huge", "overflow", "nul", "mixed", "big", "space"}

func (w *world) stale(t *rapid.T) {
	k := rapid.SampledFrom(staleContents).Draw(t, "stale")
	w.Op("the lockfile is left as: %s", k)
	w.Label("left " + k)
	var b string
	gone := newStand()
	gone.kill()
	switch k {
	case "absent":
		return
	case "dead":
		b = strconv.Itoa(gone.pid())
	case "dead-newline":
		b = strconv.Itoa(gone.pid()) + "\n"
	case "dead-long":
		b = strconv.Itoa(gone.pid()) + strings.Repeat(" ", 40) + "x"
	case "unrelated":
		w.foreignPID = true
		b = strconv.Itoa(os.Getppid())
		if os.Getppid() == 0 {
			b = "1"
		}
	case "own":
		b = strconv.Itoa(w.procs[0].stand.pid())
		w.foreignPID = true
	case "garbage":
		b = "not a number"
	case "zero":
		b = "0"
	case "negative":
		b = "-" + strconv.Itoa(gone.pid())
	case "huge":
		b = "2147483646"
	case "overflow":
		b = "999999999999999999999999"
	case "nul":
		b = "\x00\x00\x00\x00"
	case "mixed":
		b = strconv.Itoa(gone.pid()) + "abc"
	case "big":
		b = strings.Repeat("7", 100000)
	case "space":
		b = "   "
	}
	if err := os.WriteFile(w.path, []byte(b), 0o644); err != nil {
		vh.Abort("%v", err)
	}
}

// TestLock plays generated scripts in a generated order.
func TestLock(t *testing.T) {
	vh.SetRule("2-4 processes (and later ones in the place of dead ones) open, lock, unlock and clean the lockfile of a base directory by generated scripts; in which order they go on, at the granularity of the calls into the operating system, and where they die, is generated, and so is what an earlier owner left in the file. The PIDs are of real processes, the kernel lock is real. Non-trivial: one is switched away from, or dies, in the middle of a call.")
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		w := &world{Case: c, path: filepath.Join(c.Dir(), "base", "ferryd.lock")}
		if rapid.Bool().Draw(t, "dir") {
			os.Mkdir(filepath.Dir(w.path), 0o755)
		}
		n := rapid.IntRange(2, 4).Draw(t, "processes")
		add := func() *proc {
			p := &proc{name: fmt.Sprintf("P%d", len(w.procs)), stand: newStand(), resume: make(chan bool), yield: make(chan struct{})}
			p.script = script(t)
			w.procs = append(w.procs, p)
			w.Op("%s: %s", p.name, strings.Join(p.script, " "))
			return p
		}
		for i := 0; i < n; i++ {
			add()
		}
		if _, err := os.Stat(filepath.Dir(w.path)); err == nil {
			w.stale(t)
		}
		vos.Set(w.handler)
		vos.Pid = func() int {
			if w.cur == nil {
				return os.Getpid()
			}
			return w.cur.stand.pid()
		}
		vos.Opened = func(f *os.File) {
			if w.cur != nil {
				w.cur.files = append(w.cur.files, f)
			}
		}
		defer func() {
			vos.Set(nil)
			vos.Pid, vos.Opened = nil, nil
		}()
		for _, p := range w.procs {
			go p.body(w)
		}
		// end lets a process run into its death
		end := func(p *proc) {
			w.cur = p
			p.resume <- false
			for range p.yield {
				p.resume <- false
			}
			w.cur = nil
		}
		defer func() {
			// whatever happens, nothing is left behind
			for _, p := range w.procs {
				if !p.done {
					p.done = true
					end(p)
				}
				if !p.dead {
					for _, f := range p.files {
						f.Close()
					}
					p.dead = true
					spares = append(spares, p.stand)
				}
			}
		}()
		sched := rapid.SliceOfN(rapid.Byte(), 20, 90).Draw(t, "schedule")
		born := 0
		last := (*proc)(nil)
		for i := 0; i < 600; i++ {
			var can []*proc
			for _, p := range w.procs {
				if !p.done && !p.dead {
					can = append(can, p)
				}
			}
			if len(can) == 0 {
				break
			}
			b := 0
			if i < len(sched) {
				b = int(sched[i])
			}
			p := can[b%len(can)]
			if b < 96 && last != nil && !last.done && !last.dead {
				p = last // stay with it
			}
			if i < len(sched) && b >= 248 {
				w.Op("%s dies%s", p.name, during(p))
				w.Label("dies")
				if p.call != "" {
					w.Label("dies in the middle of " + p.call)
					w.Nontrivial()
				}
				// what it had goes before anybody else runs
				p.done = true
				w.die(p)
				end(p)
				w.observe()
				if born < 2 {
					born++
					q := add()
					go q.body(w)
				}
				continue
			}
			if last != nil && last != p && last.call != "" && !last.dead {
				w.Label("switched in the middle of " + last.call)
				w.Nontrivial()
			}
			last = p
			w.cur = p
			p.resume <- true
			if _, ok := <-p.yield; !ok {
				p.done = true
			}
			w.cur = nil
			w.observe()
		}
		for _, p := range w.procs {
			if !p.done && !p.dead && p.call == "lock" {
				w.Fail("C34", "%s waits for the lock, and is not refused", p.name)
			}
		}
		// whoever still has it keeps everybody else out, and only then
		var owner *proc
		for _, p := range w.procs {
			if p.owner && !p.dead {
				owner = p
			}
		}
		w.foreignPID = w.foreignPID && owner == nil
		w.late(owner)
		if owner != nil {
			w.Label("still owned at the end")
			w.Op("%s dies", owner.name)
			w.die(owner)
			w.late(nil)
		}
		c.End()
	})
}

func during(p *proc) string {
	if p.call == "" {
		return ""
	}
	return " in the middle of " + p.call
}

// late has fresh processes come, one after the other.
func (w *world) late(owner *proc) {
	files := map[*stand][]*os.File{}
	try := func(name string) (*LockFile, *stand, error) {
		s := newStand()
		vos.Pid = s.pid
		vos.Opened = func(f *os.File) { files[s] = append(files[s], f) }
		l, err := NewLockFile(w.path)
		if err != nil {
			w.Fail("C34", "%s cannot open the lockfile: %v", name, err)
			return nil, s, err
		}
		return l, s, l.Lock()
	}
	gone := func(l *LockFile, s *stand) {
		for _, f := range files[s] {
			f.Close()
		}
		s.kill()
	}
	l, s, err := try("a late process")
	w.Op("a late process: %v", err)
	if owner != nil {
		if err == nil {
			w.Fail("C34", "a late process takes the lock of %s", owner.name)
		} else if errors.Is(err, ErrOwnedLockFile) && l.GetOwnerPID() != owner.stand.pid() {
			w.Fail("C34", "a late process is refused, naming %d, and %d has the lock", l.GetOwnerPID(), owner.stand.pid())
		}
		gone(l, s)
		return
	}
	if err != nil {
		w.Fail("C34", "nobody has the lock, and a late process is refused: %v", err)
		gone(l, s)
		return
	}
	l2, s2, err2 := try("a later process")
	if err2 == nil {
		w.Fail("C34", "a later process takes the lock of the late one")
	} else if !errors.Is(err2, ErrOwnedLockFile) || l2.GetOwnerPID() != s.pid() {
		w.Fail("C34", "a later process is refused with %v, naming %d; %d has the lock", err2, l2.GetOwnerPID(), s.pid())
	}
	// the refused one going away takes nothing from the owner
	l2.Clean()
	gone(l2, s2)
	l3, s3, err3 := try("another one")
	if err3 == nil {
		w.Fail("C34", "after a refused process has cleaned up, another takes the lock of its owner")
	}
	gone(l3, s3)
	l.Clean()
	l4, s4, err4 := try("the next one")
	if err4 != nil {
		w.Fail("C34", "the lock was released, and the next process is refused: %v", err4)
	}
	gone(l4, s4)
	gone(l, s)
}

func script(t *rapid.T) []string {
	s := []string{"open"}
	switch rapid.IntRange(0, 7).Draw(t, "script") {
	case 0, 1, 2:
		return append(s, "lock", "work", "clean")
	case 3:
		return append(s, "lock", "work", "unlock")
	case 4:
		return append(s, "lock", "unlock", "lock", "clean")
	case 5:
		return append(s, "work", "lock", "work", "work", "clean", "open", "lock")
	case 6:
		return append(s, "lock", "work", "work")
	}
	return append(s, "lock", "clean", "open", "lock", "unlock", "clean")
}

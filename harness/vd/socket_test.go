//go:build go1.25

package vd

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C41: the socket a daemon makes, and the one it is given.

type socketCase struct {
	*vh.Case
	t    *rapid.T
	base string
	n    int
	ps   []*vh.Program
}

func (s *socketCase) begin(line string, files []*os.File, sock string) *vh.Daemon {
	p := vh.StartBy("VERIF_FERRYD", s.Dir(), line, files, "-d", s.base, "-s", sock)
	s.ps = append(s.ps, p)
	return &vh.Daemon{Program: p, Base: s.base, Sock: sock}
}

// use has the daemon at a socket do something, and look at the result.
func (s *socketCase) use(sock string) {
	cl := libferry.NewClient(sock)
	defer cl.Close()
	name := fmt.Sprintf("repo%d", s.n)
	s.n++
	if err := cl.CreateRepo(name); err != nil {
		s.Fail("C41", "a request at %s fails: %v", filepath.Base(sock), err)
		return
	}
	st, err := cl.GetStatus()
	if err != nil {
		s.Fail("C41", "a request for the status at %s fails: %v", filepath.Base(sock), err)
		return
	}
	known := false
	for _, j := range append(append(append([]*libferry.Job{}, st.CurrentJobs...), st.CompletedJobs...), st.FailedJobs...) {
		known = known || strings.Contains(j.Description, name)
	}
	s.Check(known, "C41", "the job asked for at %s is not known to the daemon there", filepath.Base(sock))
}

// leave ends a daemon by a signal and waits for that.
func (s *socketCase) leave(d *vh.Daemon) bool {
	sig := rapid.SampledFrom([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}).Draw(s.t, "signal")
	s.Op("%v", sig)
	d.Signal(sig)
	if !d.Exited(endsWithin) {
		s.Fail("C41", "the daemon does not end after %v", sig)
		return false
	}
	return true
}

type fileID struct {
	ino  uint64
	mode os.FileMode
	uid  uint32
	gid  uint32
}

func idOf(p string) (fileID, bool) {
	fi, err := os.Lstat(p)
	if err != nil {
		return fileID{}, false
	}
	st := fi.Sys().(*syscall.Stat_t)
	return fileID{st.Ino, fi.Mode(), st.Uid, st.Gid}, true
}

func (s *socketCase) own() {
	sock := filepath.Join(s.Dir(), "sock")
	for i, n := 0, rapid.IntRange(1, 2).Draw(s.t, "sessions"); i < n; i++ {
		umask := rapid.SampledFrom([]string{"000", "002", "007", "022", "027", "077", "177", "777"}).Draw(s.t, "umask")
		if _, there := idOf(sock); !there && rapid.IntRange(0, 2).Draw(s.t, "stale") == 0 {
			l, err := net.ListenUnix("unix", &net.UnixAddr{Name: sock, Net: "unix"})
			if err != nil {
				vh.Abort("%v", err)
			}
			l.SetUnlinkOnClose(false)
			l.Close()
			vh.Own(sock)
			s.Op("a socket nobody listens on is in the place")
			s.Label("dead socket in the place")
		}
		s.Op("start with umask %s", umask)
		// what the daemon makes inside its base directory is not the matter here
		d := s.begin("umask "+umask+` && exec "$@"`, nil, sock)
		if umask == "177" || umask == "777" {
			// it cannot enter the directories it makes, but must not leave a socket others may use
			for end := time.Now().Add(endsWithin); !d.Exited(2 * time.Millisecond); {
				if vh.Answers(sock) {
					break
				}
				if time.Now().After(end) {
					s.Fail("C41", "the daemon can neither serve nor end: %q", short(d.Output()))
					return
				}
			}
			if d.Exited(0) {
				s.Label("cannot start with such a umask")
				return
			}
		} else if !d.Ready() {
			s.Fail("C41", "the daemon does not start with umask %s: %q", umask, short(d.Output()))
			return
		}
		s.Label("own socket")
		s.Nontrivial()
		id, there := idOf(sock)
		s.Check(there && id.mode.Type() == os.ModeSocket && id.mode.Perm() == 0o660, "C41", "with umask %s the daemon's socket has mode %v", umask, id.mode)
		s.use(sock)
		if !s.leave(d) {
			return
		}
		_, there = idOf(sock)
		s.Check(!there, "C41", "the daemon is gone, and its socket is still there")
	}
}

func (s *socketCase) listener(name string) (*net.UnixListener, *os.File) {
	l, err := net.ListenUnix("unix", &net.UnixAddr{Name: filepath.Join(s.Dir(), name), Net: "unix"})
	if err != nil {
		vh.Abort("%v", err)
	}
	l.SetUnlinkOnClose(false)
	f, err := l.File()
	if err != nil {
		vh.Abort("%v", err)
	}
	return l, f
}

const givenLine = `LISTEN_PID=$$ && export LISTEN_PID && exec "$@"`

func (s *socketCase) given() {
	l, f := s.listener("given")
	defer l.Close()
	defer f.Close()
	sock := filepath.Join(s.Dir(), "given")
	mode := rapid.SampledFrom([]os.FileMode{0o600, 0o660, 0o666, 0o600}).Draw(s.t, "mode")
	must(os.Chmod(sock, mode))
	if rapid.Bool().Draw(s.t, "owned") {
		vh.Own(sock)
	}
	id, _ := idOf(sock)
	for i, n := 0, rapid.IntRange(1, 3).Draw(s.t, "sessions"); i < n; i++ {
		other := sock
		var was fileID
		wasThere := true
		switch rapid.IntRange(0, 3).Draw(s.t, "named") {
		case 0: // another path, with nothing there
			other = filepath.Join(s.Dir(), "other")
			os.Remove(other)
		case 1: // another path, with a dead socket
			other = filepath.Join(s.Dir(), "other")
			os.Remove(other)
			l2, f2 := s.listener("other")
			f2.Close()
			l2.Close()
			vh.Own(other)
		}
		was, wasThere = idOf(other)
		s.Op("start with the socket of mode %v as descriptor 3, and -s %s (there: %v)", mode, filepath.Base(other), wasThere)
		// somebody may ask before the daemon runs
		asked := make(chan error, 1)
		early := rapid.Bool().Draw(s.t, "early")
		if early {
			s.Op("a request is made before it")
			go func() {
				cl := libferry.NewClient(sock)
				defer cl.Close()
				_, err := cl.GetStatus()
				asked <- err
			}()
			time.Sleep(5 * time.Millisecond)
		}
		d := s.begin("LISTEN_FDS=1 && export LISTEN_FDS && "+givenLine, []*os.File{f}, other)
		d.Sock = sock
		// the socket is there all the time, so the daemon may end before anybody answers
		up := make(chan bool, 1)
		go func() { up <- vh.Answers(sock) }()
		ok := false
		for done := false; !done; {
			select {
			case ok = <-up:
				done = true
			default:
				done = d.Exited(2 * time.Millisecond)
			}
		}
		if !ok {
			s.Fail("C41", "the daemon does not serve the socket it is given: %q", short(d.Output()))
			return
		}
		if early {
			if err := <-asked; err != nil {
				s.Fail("C41", "the request made before the daemon was started fails: %v", err)
			}
			s.Label("asked early")
		}
		s.Label("given socket")
		s.Nontrivial()
		s.use(sock)
		check := func(when string) {
			now, there := idOf(sock)
			s.Check(there && now == id, "C41", "%s: the socket given to the daemon was %v, is %v (there: %v)", when, id, now, there)
			if other != sock {
				o, there := idOf(other)
				s.Check(there == wasThere && o == was, "C41", "%s: the daemon was given a socket, and what is at the path it did not need changes from %v (%v) to %v (%v)", when, was, wasThere, o, there)
			}
		}
		check("running")
		if rapid.IntRange(0, 3).Draw(s.t, "killed") == 0 {
			s.Op("kill")
			d.Kill()
		} else if !s.leave(d) {
			return
		}
		check("afterwards")
	}
}

// refuse hands over what is not one unix socket.
func (s *socketCase) refuse() {
	var files []*os.File
	own := filepath.Join(s.Dir(), "own")
	env := ""
	kind := rapid.SampledFrom([]string{"none", "two", "tcp", "file", "pid", "three", "number"}).Draw(s.t, "kind")
	var ls []net.Listener
	unix := func(name string) {
		l, f := s.listener(name)
		ls = append(ls, l)
		files = append(files, f)
	}
	line := givenLine
	switch kind {
	case "none":
		env = "LISTEN_FDS=0"
	case "two", "three":
		unix("given0")
		unix("given1")
		env = "LISTEN_FDS=2"
		if kind == "three" {
			unix("given2")
			env = "LISTEN_FDS=3"
		}
	case "tcp":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			s.Label("no loopback")
			return
		}
		f, err := l.(*net.TCPListener).File()
		must(err)
		ls = append(ls, l)
		files = append(files, f)
		env = "LISTEN_FDS=1"
	case "file":
		f, err := os.Create(filepath.Join(s.Dir(), "file"))
		must(err)
		files = append(files, f)
		env = "LISTEN_FDS=1"
	case "pid": // meant for another process
		unix("given0")
		env = "LISTEN_FDS=1"
		line = `LISTEN_PID=1 && export LISTEN_PID && exec "$@"`
	case "number":
		unix("given0")
		env = "LISTEN_FDS=x"
	}
	ids := map[string]fileID{}
	for _, l := range ls {
		if a := l.Addr(); a.Network() == "unix" {
			ids[a.String()], _ = idOf(a.String())
		}
	}
	s.Op("start with %s: %s", env, kind)
	d := s.begin(env+" && export LISTEN_FDS && "+line, files, own)
	end := time.Now().Add(endsWithin)
	for !d.Exited(5 * time.Millisecond) {
		if _, there := idOf(own); there && vh.Answers(own) {
			s.Fail("C41", "given %s, the daemon serves a socket of its own", kind)
			break
		}
		if time.Now().After(end) {
			s.Fail("C41", "given %s, the daemon does not end", kind)
			break
		}
	}
	d.Kill()
	s.Label("refused: " + kind)
	s.Nontrivial()
	s.Check(strings.TrimSpace(d.Output()) != "", "C41", "given %s, the daemon ends without a word", kind)
	_, there := idOf(own)
	s.Check(!there, "C41", "given %s, the daemon leaves a socket of its own", kind)
	for p, id := range ids {
		now, there := idOf(p)
		s.Check(there && now == id, "C41", "given %s, the daemon changes %s from %v to %v (there: %v)", kind, filepath.Base(p), id, now, there)
	}
	for _, f := range files {
		f.Close()
	}
	for _, l := range ls {
		l.Close()
	}
	// nothing is in the way of a daemon started rightly
	d = s.begin(`exec "$@"`, nil, own)
	if !d.Ready() {
		s.Fail("C41", "after the daemon was given %s, another does not start: %q", kind, short(d.Output()))
		return
	}
	s.use(own)
	d.Kill()
}

// TestSocket starts daemons over sockets of their own and given ones.
func TestSocket(t *testing.T) {
	vh.SetRule("daemons started over one base directory: with a socket of their own, under generated umasks, with and without a dead socket in its place; with one given by the service manager, of generated mode and owner, for up to three daemons in turn, where -s names the same path, a free one or one with a dead socket, and somebody asks before the daemon runs; and with what is not one unix socket. Non-trivial: a daemon serves, or is refused.")
	vh.Unprivileged()
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		os.Chmod(c.Dir(), 0o777)
		s := &socketCase{Case: c, t: t, base: filepath.Join(c.Dir(), "base")}
		defer func() {
			for _, p := range s.ps {
				p.Kill()
			}
		}()
		must(os.Mkdir(s.base, 0o755))
		vh.Own(s.base)
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0, 1, 2:
			s.given()
		case 3, 4:
			s.own()
		default:
			s.refuse()
		}
		c.End()
	})
}

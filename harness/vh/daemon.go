//go:build go1.25

package vh

import (
	"bytes"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// nobody is who the programs under test run as, where that is possible: they
// can then reach nothing but what was given to them.
const nobody = 65534

var (
	credOnce sync.Once
	cred     *syscall.Credential
)

// Unprivileged is how a program is started as nobody, nil if that cannot be done.
func Unprivileged() *syscall.Credential {
	credOnce.Do(func() {
		if os.Geteuid() != 0 {
			return
		}
		c := exec.Command("/bin/true")
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
		if c.Run() == nil {
			cred = &syscall.Credential{Uid: nobody, Gid: nobody}
			// the way to the scratch space has to be passable
			for d := ScratchRoot; d != "/" && d != "/tmp" && d != "/dev/shm"; d = filepath.Dir(d) {
				if fi, err := os.Stat(d); err == nil && fi.Mode().Perm()&0o011 != 0o011 {
					os.Chmod(d, fi.Mode().Perm()|0o011)
				}
			}
		}
	})
	return cred
}

// Own gives a tree to whoever the programs run as.
func Own(root string) {
	if Unprivileged() == nil {
		return
	}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, nobody, nobody)
		}
		return nil
	})
}

// CopyTree copies directories and regular files.
func CopyTree(from, to string) {
	err := filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		t := filepath.Join(to, rel)
		if fi.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !fi.Mode().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(t, b, 0o644)
	})
	if err != nil {
		Abort("copying %s: %v", from, err)
	}
}

// Program is a running program under test.
type Program struct {
	Cmd  *exec.Cmd
	mu   sync.Mutex
	out  bytes.Buffer
	done chan struct{}
}

// Write collects what the program prints.
func (p *Program) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.Write(b)
}

// Output is what it printed so far.
func (p *Program) Output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// Start runs a program of the build; the name is that of the environment variable holding its path.
func Start(which, dir string, arg ...string) *Program {
	return start(dir, nil, exec.Command(binary(which), arg...))
}

func binary(which string) string {
	bin := os.Getenv(which)
	if bin == "" {
		Abort("%s is not set", which)
	}
	return bin
}

// StartBy starts a program of the build by a line of shell, in which "$@" is
// the program with its arguments, handing it files from descriptor 3 on.
func StartBy(which, dir, line string, files []*os.File, arg ...string) *Program {
	return start(dir, files, exec.Command("/bin/sh", append([]string{"-c", line, "sh", binary(which)}, arg...)...))
}

func start(dir string, files []*os.File, cmd *exec.Cmd) *Program {
	p := &Program{Cmd: cmd, done: make(chan struct{})}
	p.Cmd.Dir = dir
	p.Cmd.ExtraFiles = files
	p.Cmd.Stdout, p.Cmd.Stderr = p, p
	p.Cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL, Credential: Unprivileged()}
	if err := p.Cmd.Start(); err != nil {
		Abort("%s: %v", cmd.Path, err)
	}
	go func() {
		p.Cmd.Wait()
		close(p.done)
	}()
	return p
}

// Kill ends it at once.
func (p *Program) Kill() {
	p.Cmd.Process.Signal(syscall.SIGCONT)
	p.Cmd.Process.Kill()
	<-p.done
}

// Signal sends a signal.
func (p *Program) Signal(s syscall.Signal) { p.Cmd.Process.Signal(s) }

// Exited says whether it ended, waiting so long.
func (p *Program) Exited(d time.Duration) bool {
	select {
	case <-p.done:
		return true
	default:
	}
	select {
	case <-p.done:
		return true
	case <-time.After(d):
		return false
	}
}

// ExitCode of an ended program, -1 when a signal ended it.
func (p *Program) ExitCode() int { return p.Cmd.ProcessState.ExitCode() }

// Run waits for a program that ends by itself.
func Run(which, dir string, arg ...string) *Program {
	p := Start(which, dir, arg...)
	if !p.Exited(120 * time.Second) {
		p.Kill()
		Abort("%s %q does not end", which, arg)
	}
	return p
}

// Daemon is a running ferryd.
type Daemon struct {
	*Program
	Base, Sock string
	again      func() *Program
}

// StartDaemon starts ferryd over a base directory.
func StartDaemon(base, sock string) *Daemon {
	start := func() *Program { return Start("VERIF_FERRYD", filepath.Dir(base), "-d", base, "-s", sock) }
	return &Daemon{Program: start(), Base: base, Sock: sock, again: start}
}

// Ready waits until the daemon answers (true), ended or does neither (false).
func (d *Daemon) Ready() bool {
	end := time.Now().Add(120 * time.Second)
	for time.Now().Before(end) {
		if Answers(d.Sock) {
			return true
		}
		if d.Exited(2 * time.Millisecond) {
			if d.again != nil && d.short() && time.Now().Before(end) {
				// not of its own making: a user has but so many watchers,
				// and other daemons of other cases have them now
				time.Sleep(300 * time.Millisecond)
				d.Program = d.again()
				continue
			}
			return false
		}
	}
	d.Kill()
	return false
}

// short says whether a daemon ended for want of watchers.
func (d *Daemon) short() bool {
	return strings.Contains(d.Output(), "too many open files")
}

// Answers says whether something serves requests at the socket.
func Answers(sock string) bool {
	c, err := net.Dial("unix", sock)
	if err != nil {
		return false
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := io.WriteString(c, "GET /api/v1/status HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"); err != nil {
		return false
	}
	b := make([]byte, 12)
	if _, err := io.ReadFull(c, b); err != nil {
		return false
	}
	return bytes.HasPrefix(b, []byte("HTTP/1.1 "))
}

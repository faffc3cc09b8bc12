//go:build go1.25

// Package vos stands between the code under test and the operating system in
// the checks about crashes and failing file systems: a rewritten copy of the
// sources (harness/rewrite) calls it instead of os, io/ioutil and os/exec. It
// does what those do, and tells a handler before each step; the handler may
// look at the disk, or have the step fail.
package vos

import (
	"context"
	"errors"
	"io/fs"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// Event is one step about to be done.
type Event struct {
	Op    string // create, open, remove, ...
	Path  string
	Path2 string // the new name, of link and rename
	Write []byte // of db-write
}

// Verdict says what to do instead.
type Verdict struct {
	// Err makes the step fail without an effect.
	Err error
	// NoSpace makes a created file refuse all data, or a program stop halfway.
	NoSpace bool
	// NoRead makes an opened file refuse to give any data.
	NoRead bool
	// Torn, when positive, has so many bytes written before AtTorn is called.
	Torn   int
	AtTorn func()
}

var (
	mu      sync.Mutex
	handler func(Event) Verdict
	// dbmu keeps the database's own files still.
	dbmu sync.RWMutex
)

// Set installs (nil: removes) the handler.
func Set(h func(Event) Verdict) {
	mu.Lock()
	handler = h
	mu.Unlock()
}

// Still runs f while no file of a database changes.
func Still(f func()) {
	dbmu.Lock()
	defer dbmu.Unlock()
	f()
}

// Elsewhere, when set, says where a path outside the scratch space is looked for.
var Elsewhere func(string) string

func moved(name string) string {
	if Elsewhere != nil {
		return Elsewhere(name)
	}
	return name
}

func at(op, p, p2 string) Verdict {
	mu.Lock()
	h := handler
	mu.Unlock()
	if h == nil {
		return Verdict{}
	}
	return h(Event{Op: op, Path: p, Path2: p2})
}

// full gives a handle on which no write succeeds.
func full(path string) (*os.File, error) {
	return os.OpenFile(path, os.O_RDONLY, 0)
}

// Getpid is os.Getpid, unless another process is played.
func Getpid() int {
	if Pid != nil {
		return Pid()
	}
	return os.Getpid()
}

var (
	// Pid, when set, is asked for the process that is played.
	Pid func() int
	// Opened, when set, is told about opened files.
	Opened func(*os.File)
)

func opened(f *os.File, err error) (*os.File, error) {
	if err == nil && Opened != nil {
		Opened(f)
	}
	return f, err
}

// FindProcess is os.FindProcess.
func FindProcess(pid int) (*os.Process, error) {
	at("findprocess", "", "")
	return os.FindProcess(pid)
}

// Flock is syscall.Flock; one that would wait is tried again and again.
func Flock(fd int, how int) error {
	for {
		at("flock", "", "")
		if err := syscall.Flock(fd, how|syscall.LOCK_NB); err != syscall.EWOULDBLOCK || how&syscall.LOCK_NB != 0 {
			return err
		}
	}
}

// Create is os.Create.
func Create(name string) (*os.File, error) {
	name = moved(name)
	v := at("create", name, "")
	if v.Err != nil {
		return nil, v.Err
	}
	f, err := opened(os.Create(name))
	if err == nil && v.NoSpace {
		f.Close()
		return full(name)
	}
	return f, err
}

// OpenFile is os.OpenFile.
func OpenFile(name string, flag int, perm os.FileMode) (*os.File, error) {
	name = moved(name)
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 {
		op = "create"
		if flag&os.O_TRUNC == 0 {
			op = "openwrite"
		}
	}
	v := at(op, name, "")
	if v.Err != nil {
		return nil, v.Err
	}
	f, err := opened(os.OpenFile(name, flag, perm))
	if err == nil && v.NoSpace {
		f.Close()
		return full(name)
	}
	return f, err
}

// Open is os.Open.
func Open(name string) (*os.File, error) {
	name = moved(name)
	v := at("open", name, "")
	if v.Err != nil {
		return nil, v.Err
	}
	if v.NoRead {
		if _, err := os.Stat(name); err == nil {
			return os.Open(filepath.Dir(name))
		}
	}
	return opened(os.Open(name))
}

// ReadFile is os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	name = moved(name)
	if v := at("read", name, ""); v.Err != nil {
		return nil, v.Err
	}
	return os.ReadFile(name)
}

// WriteFile is os.WriteFile.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	v := at("create", name, "")
	if v.Err != nil {
		return v.Err
	}
	if v.NoSpace {
		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
		if err != nil {
			return err
		}
		f.Write(data[:len(data)/2])
		f.Close()
		return noSpace("write", name)
	}
	return os.WriteFile(name, data, perm)
}

func noSpace(op, name string) error {
	return &os.PathError{Op: op, Path: name, Err: errNoSpace}
}

var errNoSpace = errors.New("no space left on device")

// ReadDir is os.ReadDir.
func ReadDir(name string) ([]os.DirEntry, error) {
	name = moved(name)
	if v := at("readdir", name, ""); v.Err != nil {
		return nil, v.Err
	}
	return os.ReadDir(name)
}

// IoutilReadDir is ioutil.ReadDir.
func IoutilReadDir(name string) ([]fs.FileInfo, error) {
	name = moved(name)
	if v := at("readdir", name, ""); v.Err != nil {
		return nil, v.Err
	}
	return ioutil.ReadDir(name)
}

// Stat is os.Stat.
func Stat(name string) (os.FileInfo, error) {
	name = moved(name)
	if v := at("stat", name, ""); v.Err != nil {
		return nil, v.Err
	}
	return os.Stat(name)
}

// Lstat is os.Lstat.
func Lstat(name string) (os.FileInfo, error) {
	name = moved(name)
	if v := at("stat", name, ""); v.Err != nil {
		return nil, v.Err
	}
	return os.Lstat(name)
}

// Remove is os.Remove.
func Remove(name string) error {
	name = moved(name)
	if v := at("remove", name, ""); v.Err != nil {
		return v.Err
	}
	return os.Remove(name)
}

// RemoveAll is os.RemoveAll, one step at a time.
func RemoveAll(name string) error {
	name = moved(name)
	fi, err := os.Lstat(name)
	if err != nil {
		return os.RemoveAll(name)
	}
	if fi.IsDir() {
		es, err := os.ReadDir(name)
		if err != nil {
			return os.RemoveAll(name)
		}
		for _, e := range es {
			if err := RemoveAll(filepath.Join(name, e.Name())); err != nil {
				return err
			}
		}
	}
	if v := at("removeall", name, ""); v.Err != nil {
		return v.Err
	}
	return os.RemoveAll(name)
}

// Rename is os.Rename.
func Rename(a, b string) error {
	if v := at("rename", a, b); v.Err != nil {
		return v.Err
	}
	return os.Rename(a, b)
}

// Link is os.Link.
func Link(a, b string) error {
	if v := at("link", a, b); v.Err != nil {
		return v.Err
	}
	return os.Link(a, b)
}

// Symlink is os.Symlink.
func Symlink(a, b string) error {
	if v := at("symlink", a, b); v.Err != nil {
		return v.Err
	}
	return os.Symlink(a, b)
}

// Mkdir is os.Mkdir.
func Mkdir(name string, m os.FileMode) error {
	if v := at("mkdir", name, ""); v.Err != nil {
		return v.Err
	}
	return os.Mkdir(name, m)
}

// MkdirAll is os.MkdirAll, one step at a time.
func MkdirAll(name string, m os.FileMode) error {
	if _, err := os.Stat(name); err == nil {
		return os.MkdirAll(name, m)
	}
	if p := filepath.Dir(name); p != name {
		if _, err := os.Stat(p); err != nil {
			if err := MkdirAll(p, m); err != nil {
				return err
			}
		}
	}
	if v := at("mkdir", name, ""); v.Err != nil {
		return v.Err
	}
	return os.MkdirAll(name, m)
}

// Chmod is os.Chmod.
func Chmod(name string, m os.FileMode) error {
	if v := at("chmod", name, ""); v.Err != nil {
		return v.Err
	}
	return os.Chmod(name, m)
}

// Chtimes is os.Chtimes.
func Chtimes(name string, a, b time.Time) error {
	if v := at("chtimes", name, ""); v.Err != nil {
		return v.Err
	}
	return os.Chtimes(name, a, b)
}

// Chown is os.Chown.
func Chown(name string, u, g int) error {
	if v := at("chown", name, ""); v.Err != nil {
		return v.Err
	}
	return os.Chown(name, u, g)
}

// Truncate is os.Truncate.
func Truncate(name string, n int64) error {
	if v := at("truncate", name, ""); v.Err != nil {
		return v.Err
	}
	return os.Truncate(name, n)
}

// MkdirTemp is os.MkdirTemp.
func MkdirTemp(dir, pat string) (string, error) {
	if v := at("mkdir", filepath.Join(dir, pat), ""); v.Err != nil {
		return "", v.Err
	}
	return os.MkdirTemp(dir, pat)
}

// TempDir is ioutil.TempDir.
func TempDir(dir, pat string) (string, error) { return MkdirTemp(dir, pat) }

// CreateTemp is os.CreateTemp.
func CreateTemp(dir, pat string) (*os.File, error) {
	if v := at("create", filepath.Join(dir, pat), ""); v.Err != nil {
		return nil, v.Err
	}
	return os.CreateTemp(dir, pat)
}

// TempFile is ioutil.TempFile.
func TempFile(dir, pat string) (*os.File, error) { return CreateTemp(dir, pat) }

// Command is exec.Command.
func Command(name string, arg ...string) *exec.Cmd {
	file := ""
	for _, a := range arg {
		if fi, err := os.Stat(a); err == nil && fi.Mode().IsRegular() {
			file = a
		}
	}
	v := at("exec "+filepath.Base(name), file, "")
	if v.Err != nil {
		return exec.Command("/bin/false")
	}
	c := exec.Command(name, arg...)
	if v.NoSpace { // our stand-in stops halfway
		c.Env = append(os.Environ(), "FAKEXZ_DIE=1")
	}
	return c
}

// CommandContext is exec.CommandContext.
func CommandContext(ctx context.Context, name string, arg ...string) *exec.Cmd {
	c := Command(name, arg...)
	d := exec.CommandContext(ctx, c.Path, c.Args[1:]...)
	d.Env = c.Env
	return d
}

// OpenLevelDB is leveldb.OpenFile over a storage whose steps are seen.
func OpenLevelDB(path string, o *opt.Options) (*leveldb.DB, error) {
	st, err := storage.OpenFile(path, o.GetReadOnly())
	if err != nil {
		return nil, err
	}
	var own opt.Options
	if o != nil {
		own = *o
	}
	own.DisableBlockCache = true // every look at what is on disk is a step
	db, err := leveldb.Open(&stor{Storage: st}, &own)
	if err != nil {
		st.Close()
	}
	return db, err
}

type stor struct {
	storage.Storage
}

type lock struct {
	storage.Locker
	st storage.Storage
}

func (l *lock) Unlock() {
	l.Locker.Unlock()
	l.st.Close()
}

// Lock hands out a lock that closes the storage with it.
func (s *stor) Lock() (storage.Locker, error) {
	l, err := s.Storage.Lock()
	if err != nil {
		return nil, err
	}
	return &lock{l, s.Storage}, nil
}

func (s *stor) SetMeta(fd storage.FileDesc) error {
	if v := at("db-meta", fd.String(), ""); v.Err != nil {
		return v.Err
	}
	dbmu.RLock()
	defer dbmu.RUnlock()
	return s.Storage.SetMeta(fd)
}

func (s *stor) Create(fd storage.FileDesc) (storage.Writer, error) {
	if v := at("db-create", fd.String(), ""); v.Err != nil {
		return nil, v.Err
	}
	dbmu.RLock()
	defer dbmu.RUnlock()
	w, err := s.Storage.Create(fd)
	if err != nil {
		return nil, err
	}
	return &writer{w, fd}, nil
}

func (s *stor) Open(fd storage.FileDesc) (storage.Reader, error) {
	if v := at("db-open", fd.String(), ""); v.Err != nil {
		return nil, v.Err
	}
	r, err := s.Storage.Open(fd)
	if err != nil {
		return nil, err
	}
	return &reader{r, fd}, nil
}

func (s *stor) Remove(fd storage.FileDesc) error {
	dbmu.RLock()
	defer dbmu.RUnlock()
	return s.Storage.Remove(fd)
}

func (s *stor) Rename(a, b storage.FileDesc) error {
	dbmu.RLock()
	defer dbmu.RUnlock()
	return s.Storage.Rename(a, b)
}

type reader struct {
	storage.Reader
	fd storage.FileDesc
}

func (r *reader) Read(b []byte) (int, error) {
	if v := at("db-read", r.fd.String(), ""); v.Err != nil {
		return 0, v.Err
	}
	return r.Reader.Read(b)
}

func (r *reader) ReadAt(b []byte, off int64) (int, error) {
	if v := at("db-read", r.fd.String(), ""); v.Err != nil {
		return 0, v.Err
	}
	return r.Reader.ReadAt(b, off)
}

type writer struct {
	storage.Writer
	fd storage.FileDesc
}

func (w *writer) Write(b []byte) (int, error) {
	mu.Lock()
	h := handler
	mu.Unlock()
	var v Verdict
	if h != nil {
		v = h(Event{Op: "db-write", Path: w.fd.String(), Write: b})
	}
	if v.Err != nil {
		return 0, v.Err
	}
	n := 0
	if v.Torn > 0 && v.Torn < len(b) {
		m, err := w.write(b[:v.Torn])
		if err != nil {
			return m, err
		}
		v.AtTorn()
		n, b = m, b[v.Torn:]
	}
	m, err := w.write(b)
	return n + m, err
}

func (w *writer) write(b []byte) (int, error) {
	dbmu.RLock()
	defer dbmu.RUnlock()
	return w.Writer.Write(b)
}

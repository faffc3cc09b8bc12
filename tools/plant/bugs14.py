BUGS={}
SV='src/ferryd/server.go'; HN='src/ferryd/handlers.go'; A='src/ferryd/core/api.go'
DH='''//go:build go1.25

package main

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

var _ = fmt.Sprint
var _ = strings.Repeat
var _ = io.EOF
var _ = filepath.Join
var _ = syscall.Mkfifo
var _ = core.AssetPathComponent

// demoServer serves from a new base directory.
func demoServer(t *testing.T, prepare func(m *core.Manager, base string)) *http.Client {
	d := t.TempDir()
	baseDir, socketPath = d, d+"/sock"
	if prepare != nil {
		m, err := core.NewManager(d)
		if err != nil {
			t.Fatal(err)
		}
		prepare(m, d)
		m.Close()
	}
	s, err := NewServer()
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Bind(); err != nil {
		t.Fatal(err)
	}
	go s.Serve()
	t.Cleanup(func() { os.RemoveAll(d + "/lock") })
	c := &http.Client{Timeout: 15 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return net.Dial("unix", socketPath) }}}
	for i := 0; i < 500; i++ {
		if r, err := c.Get("http://x/api/v1/status"); err == nil {
			r.Body.Close()
			return c
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("no server")
	return nil
}

func demoDial(t *testing.T, say string) net.Conn {
	c, err := net.Dial("unix", socketPath)
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { c.Close() })
	c.SetWriteDeadline(time.Now().Add(2 * time.Second))
	io.WriteString(c, say)
	time.Sleep(100 * time.Millisecond)
	return c
}

func demoAsk(t *testing.T, c *http.Client, path, body string) string {
	var r *http.Response
	var err error
	if body == "" {
		r, err = c.Get("http://x/api/v1/" + path)
	} else {
		r, err = c.Post("http://x/api/v1/"+path, "application/json", strings.NewReader(body))
	}
	if err != nil {
		t.Fatal(err)
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	if err != nil || r.StatusCode != 200 {
		t.Fatal(r.Status, err)
	}
	return string(b)
}
'''
BUSY='''
func demoBusy(t *testing.T) *http.Client {
	c := demoServer(t, func(m *core.Manager, base string) {
		if err := m.CreateRepo("a"); err != nil {
			t.Fatal(err)
		}
		f := filepath.Join(base, core.AssetPathComponent, "a", "distribution.xml")
		os.MkdirAll(filepath.Dir(f), 0755)
		if err := syscall.Mkfifo(f, 0644); err != nil {
			t.Fatal(err)
		}
	})
	demoAsk(t, c, "index/repo/a", "")
	time.Sleep(5 * time.Second)
	return c
}
'''
def bug(i,edits,needs,breaks,demo):
    BUGS[i]=dict(property='C48',pkg='src/ferryd',edits=edits,needs=needs,breaks=breaks,demo=DH+demo)
DEC='''	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}
'''
bug('c48-shared-buffer',[ (HN,'''// getMethodOrigin helps us''','''var (
	bodyMut sync.Mutex
	bodyBuf bytes.Buffer
)

// decodeBody decodes the body of a request, bulk imports are large so we'll
// always use the same buffer.
func decodeBody(r *http.Request, req interface{}) error {
	bodyMut.Lock()
	defer bodyMut.Unlock()
	bodyBuf.Reset()
	if _, err := bodyBuf.ReadFrom(r.Body); err != nil {
		return err
	}
	return json.NewDecoder(&bodyBuf).Decode(req)
}

// getMethodOrigin helps us'''),
 (HN,'json.NewDecoder(r.Body).Decode(&req)','decodeBody(r, &req)',0),
 (HN,'json.NewDecoder(r.Body).Decode(&req)','decodeBody(r, &req)',0),
 (HN,'json.NewDecoder(r.Body).Decode(&req)','decodeBody(r, &req)',0),
 (HN,'json.NewDecoder(r.Body).Decode(&req)','decodeBody(r, &req)',0),
 (HN,'json.NewDecoder(r.Body).Decode(&req)','decodeBody(r, &req)',0),
 (HN,'json.NewDecoder(r.Body).Decode(&req)','decodeBody(r, &req)',0),
 (HN,'''	"runtime"
''','''	"runtime"
	"sync"
''')],'a client stops in the middle of the body of a request and stays connected','every other request with a body is not answered','''
func TestDemo(t *testing.T) {
	c := demoServer(t, nil)
	demoDial(t, "POST /api/v1/clone/a HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 100\\r\\n\\r\\n{\\"clone")
	demoAsk(t, c, "pull/a", "{\\"source\\":\\"b\\"}")
}
''')
bug('c48-listing-waits',[(A,'''	return m.repo.GetRepos(m.db)
''','''	repos, err := m.repo.GetRepos(m.db)
	if err != nil {
		return nil, err
	}
	// Only list a repository when its index is in a consistent state
	for _, repo := range repos {
		if live, ok := m.repo.repos[repo.ID]; ok {
			live.indexMut.Lock()
			live.indexMut.Unlock()
		}
	}
	return repos, nil
''')],'the repositories are listed while one of them is being indexed, which takes long','the list is not given before that index is done',BUSY+'''
func TestDemo(t *testing.T) {
	c := demoBusy(t)
	demoAsk(t, c, "list/repos", "")
}
''')
bug('c48-status-in-lock',[(HN,'''// GetStatus will return the current''','''// statusMut makes for a consistent status
var statusMut sync.Mutex

// GetStatus will return the current'''),(HN,'''	// Stuff the active jobs in
''','''	statusMut.Lock()
	defer statusMut.Unlock()

	// Stuff the active jobs in
'''),(HN,'''	"runtime"
''','''	"runtime"
	"sync"
''')],'a client asks for the status many times and never reads the answers','nobody else gets the status any more','''
func TestDemo(t *testing.T) {
	c := demoServer(t, nil)
	for i := 0; i < 60; i++ {
		demoAsk(t, c, "create/repo/"+strings.Repeat("x", 6000), "")
	}
	demoDial(t, strings.Repeat("GET /api/v1/status HTTP/1.1\\r\\nHost: x\\r\\n\\r\\n", 4000))
	demoAsk(t, c, "status", "")
}
''')
bug('c48-few-connections',[(SV,'''	if e := s.srv.Serve(s.socket); e != http.ErrServerClosed {
''','''	if e := s.srv.Serve(&limitListener{s.socket, make(chan struct{}, maxConnections)}); e != http.ErrServerClosed {
'''),(SV,'''// Serve will continuously serve on the unix socket until dead
''','''// maxConnections is how many clients we'll serve at once
const maxConnections = 64

// limitListener accepts no more than maxConnections at once
type limitListener struct {
	net.Listener
	slots chan struct{}
}

// limitConn gives its slot back when it is closed
type limitConn struct {
	net.Conn
	once sync.Once
	done func()
}

// Accept waits for a free slot
func (l *limitListener) Accept() (net.Conn, error) {
	l.slots <- struct{}{}
	c, err := l.Listener.Accept()
	if err != nil {
		<-l.slots
		return nil, err
	}
	return &limitConn{Conn: c, done: func() { <-l.slots }}, nil
}

// Close the connection
func (c *limitConn) Close() error {
	err := c.Conn.Close()
	c.once.Do(c.done)
	return err
}

// Serve will continuously serve on the unix socket until dead
''')],'more than 64 clients are connected and silent','nobody else is served','''
func TestDemo(t *testing.T) {
	c := demoServer(t, nil)
	for i := 0; i < 100; i++ {
		x, err := net.Dial("unix", socketPath)
		if err != nil {
			t.Fatal(err)
		}
		defer x.Close()
	}
	demoAsk(t, c, "status", "")
}
''')
bug('c48-reset-waits',[(HN,'''	if err := s.store.ResetCompleted(); err != nil {
''','''	// Don't mix up the results of the job that's about to be retired
	for {
		active, err := s.store.ActiveJobs()
		if err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
		running := false
		for _, job := range active {
			running = running || !job.Timing.Begin.IsZero()
		}
		if !running {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err := s.store.ResetCompleted(); err != nil {
'''),(HN,'''	"runtime"
''','''	"runtime"
	"time"
''')],'the history is reset while a job runs','the request is not answered before the job is done',BUSY+'''
func TestDemo(t *testing.T) {
	c := demoBusy(t)
	demoAsk(t, c, "reset/completed", "")
}
''')
bug('c48-cut-off',[(SV,'''			Handler: router,
''','''			Handler: router,
			// Keep the silent ones away
			ReadTimeout: 500 * time.Millisecond,
''')],'a client takes over half a second to send its request','its request is cut off','''
func TestDemo(t *testing.T) {
	demoServer(t, nil)
	c := demoDial(t, "POST /api/v1/pull/a HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 14\\r\\n\\r\\n{\\"source")
	time.Sleep(1200 * time.Millisecond)
	io.WriteString(c, "\\":\\"b\\"}")
	b := make([]byte, 15)
	c.SetReadDeadline(time.Now().Add(10 * time.Second))
	if _, err := io.ReadFull(c, b); err != nil || string(b) != "HTTP/1.1 200 OK" {
		t.Fatal(string(b), err)
	}
}
''')
bug('c48-part-of-a-list',[(HN,'''	if err := json.NewDecoder(r.Body).Decode(&req); err != nil {
		http.Error(w, err.Error(), http.StatusInternalServerError)
		return
	}

	log.WithFields(log.Fields{
		"id":        id,
''','''	// These may be very long, take them as they come
	dec := json.NewDecoder(r.Body)
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			if len(req.Path) > 0 {
				break
			}
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
		if key, ok := tok.(string); !ok || key != "path" {
			continue
		}
		if _, err := dec.Token(); err != nil {
			http.Error(w, err.Error(), http.StatusInternalServerError)
			return
		}
		for dec.More() {
			var path string
			if err := dec.Decode(&path); err != nil {
				break
			}
			req.Path = append(req.Path, path)
		}
	}

	log.WithFields(log.Fields{
		"id":        id,
'''),(HN,'''	"encoding/json"
''','''	"encoding/json"
	"io"
''')],'a client goes away in the middle of the list of packages to import','those that were named are imported','''
func TestDemo(t *testing.T) {
	c := demoServer(t, nil)
	x := demoDial(t, "POST /api/v1/import/a HTTP/1.1\\r\\nHost: x\\r\\nContent-Length: 100\\r\\n\\r\\n{\\"path\\":[\\"/nothing/a.eopkg\\",\\"/no")
	x.Close()
	time.Sleep(500 * time.Millisecond)
	if s := demoAsk(t, c, "status", ""); strings.Contains(s, "Add 1") {
		t.Fatal(s)
	}
}
''')

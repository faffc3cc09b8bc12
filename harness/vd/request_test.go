//go:build go1.25

package vd

import (
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C32: requests made through the client, against the queue of the real daemon.

type request struct {
	kind    string
	a, b, s string
	n       int
	flag    bool
	list    []string
}

var kinds = []string{"create", "remove", "delta", "index", "import", "clone", "pull", "removeSource", "copySource", "trim", "obsolete"}

func (r request) String() string {
	switch r.kind {
	case "import":
		return fmt.Sprintf("import %q %q", r.a, r.list)
	case "clone":
		return fmt.Sprintf("clone %q into %q full %v", r.a, r.b, r.flag)
	case "pull":
		return fmt.Sprintf("pull %q into %q", r.a, r.b)
	case "removeSource":
		return fmt.Sprintf("remove source %q %d of %q", r.s, r.n, r.a)
	case "copySource":
		return fmt.Sprintf("copy source %q %d of %q to %q skip %v", r.s, r.n, r.a, r.b, r.flag)
	case "trim":
		return fmt.Sprintf("trim %q to %d", r.a, r.n)
	}
	return fmt.Sprintf("%s %q", r.kind, r.a)
}

// id is what becomes part of the address.
func (r request) id() string {
	if r.kind == "pull" {
		return r.b
	}
	return r.a
}

// routable says the request must get through; a name with a slash can only be refused.
func (r request) routable() bool {
	id := r.id()
	return id != "" && id != "." && id != ".." && !strings.Contains(id, "/")
}

func (r request) send(c vh.Talker) error {
	switch r.kind {
	case "create":
		return c.CreateRepo(r.a)
	case "remove":
		return c.DeleteRepo(r.a)
	case "delta":
		return c.DeltaRepo(r.a)
	case "index":
		return c.IndexRepo(r.a)
	case "import":
		return c.ImportPackages(r.a, r.list)
	case "clone":
		return c.CloneRepo(r.a, r.b, r.flag)
	case "pull":
		return c.PullRepo(r.a, r.b)
	case "removeSource":
		return c.RemoveSource(r.a, r.s, r.n)
	case "copySource":
		return c.CopySource(r.a, r.b, r.s, r.n, r.flag)
	case "trim":
		return c.TrimPackages(r.a, r.n)
	case "obsolete":
		return c.TrimObsolete(r.a)
	}
	vh.Abort("request %q", r.kind)
	return nil
}

// job is what has to be queued for it.
func (r request) job() *jobs.JobEntry {
	switch r.kind {
	case "create":
		return jobs.NewCreateRepoJob(r.a)
	case "remove":
		return jobs.NewDeleteRepoJob(r.a)
	case "delta":
		return jobs.NewDeltaRepoJob(r.a)
	case "index":
		return jobs.NewIndexRepoJob(r.a)
	case "import":
		return jobs.NewBulkAddJob(r.a, r.list)
	case "clone":
		return jobs.NewCloneRepoJob(r.a, r.b, r.flag)
	case "pull":
		return jobs.NewPullRepoJob(r.a, r.b)
	case "removeSource":
		return jobs.NewRemoveSourceJob(r.a, r.s, r.n)
	case "copySource":
		return jobs.NewCopySourceJob(r.a, r.b, r.s, r.n, r.flag)
	case "trim":
		return jobs.NewTrimPackagesJob(r.a, r.n)
	}
	return jobs.NewTrimObsoleteJob(r.a)
}

var oddNames = []string{"a b", "a+b", "a%2Fb", "%", "%zz", "%00", "a?b=c", "a?", "a#b", "#", "a;b", "a&b=c", "a=b", ":id", "*x", "*", `\`, `"q"`, "'q'", "<x>&", "ä", "日本", "e\u0301", "\u2028", "\ufeffx", "a\nb", "a\tb", "\r\n",
	"\x00", "\x7f", "~", "a,b", "[::1]", "@host", "http:", "@", "null", "0", "-1", "--help", "{}", "{\"x\":1}", "😀", "A", "a", "CREATE", "api", "repo", "x.", ".x", "...", " ", " x", "x ", "\ufffd"}

var slashNames = []string{"", ".", "..", "/", "//", "a/", "/a", "a/b", "a//b", "../x", "a/../b", "./a", "../../remove/repo/blocked", "../../index/repo/x", "../import/x", "../pull/x", "x/../y", "../../../../etc", "/../x"}

func name() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "name-kind") {
		case 0, 1, 2, 3:
			return rapid.SampledFrom(oddNames).Draw(t, "odd")
		case 4:
			return rapid.SampledFrom(slashNames).Draw(t, "slash")
		case 5, 6:
			return rapid.StringN(1, 12, -1).Draw(t, "any")
		case 7:
			return rapid.SampledFrom(oddNames).Draw(t, "odd1") + rapid.SampledFrom(oddNames).Draw(t, "odd2")
		case 8:
			return strings.Repeat(rapid.SampledFrom([]string{"x", "é", "%", "&"}).Draw(t, "unit"), rapid.IntRange(1, 900).Draw(t, "times"))
		}
		return rapid.SampledFrom([]string{"unstable", "shannon", "nano", "glibc-32bit"}).Draw(t, "plain")
	})
}

func aRequest() *rapid.Generator[request] {
	return rapid.Custom(func(t *rapid.T) request {
		r := request{kind: rapid.SampledFrom(kinds).Draw(t, "kind"), a: name().Draw(t, "a"), b: name().Draw(t, "b"), s: name().Draw(t, "s")}
		r.n = rapid.OneOf(rapid.IntRange(-3, 40), rapid.SampledFrom([]int{0, -1, 1 << 31, 1<<31 - 1, -1 << 31, 1<<53 + 1, -(1<<53 + 1), 1<<63 - 1, -1 << 63})).Draw(t, "n")
		r.flag = rapid.Bool().Draw(t, "flag")
		if r.kind == "import" {
			k := rapid.IntRange(0, 4).Draw(t, "paths")
			if rapid.IntRange(0, 19).Draw(t, "many") == 13 {
				// a whole distribution
				odd := rapid.SampledFrom(oddNames).Draw(t, "path")
				for i := rapid.IntRange(300, 6000).Draw(t, "howmany"); i > 0; i-- {
					r.list = append(r.list, fmt.Sprintf("/srv/packages/%d/%s", i, odd))
				}
			}
			for i := 0; i < k; i++ {
				p := "/srv/" + rapid.SampledFrom(oddNames).Draw(t, "path")
				if i%3 == 2 {
					p = rapid.String().Draw(t, "anypath")
				}
				r.list = append(r.list, p)
			}
		}
		return r
	})
}

func client(sock string) *libferry.Client { return libferry.NewClient(sock) }

// TestRequests sends generated requests to the daemon.
func TestRequests(t *testing.T) {
	vh.SetRule("1-14 requests through libferry.Client of all 11 kinds with arbitrary names, numbers, flags and path lists, one after the other or at the same time, also while the daemon cannot write its queue, to a running ferryd whose worker is kept busy; the queue is read after the daemon was killed and compared with what was acknowledged. Non-trivial: at least one name has a character that is special in an address or in JSON, or the requests ran at the same time, or writing failed.")
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		rs := rapid.SliceOfN(aRequest(), 1, 14).Draw(t, "requests")
		mode := rapid.SampledFrom([]string{"one", "one", "one", "together", "full"}).Draw(t, "mode")
		cut := rapid.IntRange(0, len(rs)).Draw(t, "cut")
		d := startBlocked(c)
		defer d.Kill()
		for _, r := range rs {
			c.Op("%s", r)
			c.Label(r.kind)
			if strings.ContainsAny(r.a+r.b+r.s, "/%?#+;&<> \"\\\n\x00") {
				c.Nontrivial()
			}
		}
		errs := make([]error, len(rs))
		cl := vh.Talk(d.Sock)
		if vh.PID == "C44" {
			c.Also = "C44"
		}
		switch mode {
		case "together":
			c.Op("all at the same time")
			c.Label("at the same time")
			c.Nontrivial()
			var wg sync.WaitGroup
			for i := range rs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[i] = rs[i].send(cl)
				}()
			}
			wg.Wait()
		case "full":
			c.Op("before request %d the disk is full", cut)
			for i := range rs {
				if i == cut {
					full(d, true)
					c.Nontrivial()
				}
				errs[i] = rs[i].send(cl)
				if i >= cut && errs[i] != nil {
					c.Label("failing write reported")
				}
			}
			full(d, false)
		default:
			for i := range rs {
				errs[i] = rs[i].send(cl)
			}
		}
		cl.Close()
		alive(c, d, "C32")
		d.Kill()
		got := queued(d.Base)
		var want []string
		for i, r := range rs {
			if errs[i] == nil {
				want = append(want, text(r.job()))
				c.Label("queued")
				continue
			}
			c.Label("refused")
			if r.routable() && mode != "full" {
				c.Fail("C32", "%s fails with %v", short(r.String()), errs[i])
			}
		}
		have := texts(got)
		if mode == "together" {
			sort.Strings(want)
			sort.Strings(have)
		}
		for i := 0; i < len(want) || i < len(have); i++ {
			w, h := "nothing", "nothing"
			if i < len(want) {
				w = want[i]
			}
			if i < len(have) {
				h = have[i]
			}
			if w != h {
				c.Fail("C32", "acknowledged as entry %d of the queue: %s; found there: %s", i, short(w), short(h))
			}
		}
		c.End()
	})
}

// full keeps the daemon from writing its database, or lets it again.
func full(d *vh.Daemon, on bool) {
	// files keep what they have: the limit only refuses to grow beyond it
	lim := "--fsize=1:"
	if !on {
		lim = "--fsize=unlimited:"
	}
	cmd := exec.Command("prlimit", "--pid", fmt.Sprint(d.Cmd.Process.Pid), lim)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: vh.Unprivileged()}
	if out, err := cmd.CombinedOutput(); err != nil {
		vh.Abort("prlimit: %v %s", err, out)
	}
}

// TestErrors has something answer in the place of the daemon.
func TestErrors(t *testing.T) {
	vh.SetRule("one request of every kind against a stand-in for the daemon that answers it with a generated failure (status, short or long text, or an error response as the daemon sends it), or with success. Non-trivial: the answer is a failure.")
	dir := vh.Scratch(t)
	sock := filepath.Join(dir, "s")
	var mu sync.Mutex
	var answer func(w http.ResponseWriter)
	l, err := net.Listen("unix", sock)
	if err != nil {
		vh.Abort("%v", err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.Copy(io.Discard, r.Body)
		mu.Lock()
		defer mu.Unlock()
		answer(w)
	})}
	go srv.Serve(l)
	defer srv.Close()
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		status := rapid.SampledFrom([]int{200, 400, 400, 400, 404, 405, 500, 500, 503}).Draw(t, "status")
		msg := rapid.OneOf(rapid.StringN(1, 40, -1), rapid.SampledFrom([]string{"no space left on device", "leveldb: closed", "a \"quoted\" <error> & more\n"})).Draw(t, "msg")
		long := rapid.IntRange(0, 3).Draw(t, "long") == 0
		if long {
			msg = strings.Repeat(msg, 1+6000/len(msg))
		}
		js := rapid.Bool().Draw(t, "json") && status == 400
		c.Op("status %d json %v %q", status, js, short(msg))
		if status != 200 {
			c.Nontrivial()
		}
		mu.Lock()
		answer = func(w http.ResponseWriter) {
			switch {
			case status == 200:
			case js:
				b, _ := jsonResponse(msg)
				w.WriteHeader(status)
				w.Write(b)
			default:
				http.Error(w, msg, status)
			}
		}
		mu.Unlock()
		before := vh.Sockets()
		cl := client(sock)
		defer cl.Close()
		calls := map[string]func() error{
			"reset failed": cl.ResetFailed, "reset completed": cl.ResetCompleted,
		}
		for _, k := range kinds {
			r := request{kind: k, a: "x", b: "y", s: "z", n: 1, list: []string{"/p"}}
			calls[k] = func() error { return r.send(cl) }
		}
		if status != 200 {
			calls["list repos"] = func() error { _, err := cl.GetRepos(); return err }
			calls["list pool"] = func() error { _, err := cl.GetPoolItems(); return err }
			calls["status"] = func() error { _, err := cl.GetStatus(); return err }
		}
		for _, k := range vh.SortedKeys(calls) {
			err := calls[k]()
			if status == 200 && err != nil {
				c.Fail("C32", "%s: a success is reported as %v", k, err)
			}
			if status != 200 && err == nil {
				c.Fail("C32", "%s: the daemon answers %d %q (as an error response: %v, %d bytes), the caller sees success", k, status, short(msg), js, len(msg))
			}
			if js && err != nil && !strings.Contains(err.Error(), strings.TrimSpace(strings.ToValidUTF8(msg, ""))) && !strings.HasPrefix(k, "list") && k != "status" {
				c.Fail("C32", "%s: the daemon's error %q reaches the caller as %q", k, short(msg), short(err.Error()))
			}
		}
		c.Label(fmt.Sprintf("answer %d", status))
		cl.Close()
		now := vh.Sockets()
		for end := time.Now().Add(20 * time.Second); now > before && time.Now().Before(end); now = vh.Sockets() {
			time.Sleep(5 * time.Millisecond)
		}
		if now > before {
			c.Fail("C43", "the client was closed and keeps %d ends of connections open", now-before)
		}
		c.End()
	})
}

// TestRaw sends what no client sends.
func TestRaw(t *testing.T) {
	vh.SetRule("1-8 raw requests to a running daemon: unknown addresses, wrong methods, bodies that are not JSON or have values of the wrong type. Each is answered with an error and queues nothing, and the daemon goes on. Every case counts as non-trivial.")
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		type raw struct{ method, path, body string }
		var rs []raw
		for i, n := 0, rapid.IntRange(1, 8).Draw(t, "n"); i < n; i++ {
			post := []string{"import", "clone", "copy/source", "pull", "remove/source", "trim/packages"}
			get := []string{"create/repo", "remove/repo", "delta/repo", "index/repo", "trim/obsoletes"}
			r := raw{method: "POST", path: "/api/v1/" + rapid.SampledFrom(post).Draw(t, "path") + "/x"}
			switch rapid.IntRange(0, 4).Draw(t, "what") {
			case 0:
				r.body = rapid.SampledFrom([]string{"", "{", "nonsense", "[1]", "\"x\"", "1", "{\"path\":1,\"cloneName\":1,\"source\":1,\"target\":1,\"maxPackages\":\"x\",\"relno\":\"y\"}",
					"{\"path\":[1],\"cloneName\":[],\"source\":[],\"target\":{},\"maxPackages\":1.5,\"relno\":1.5}", "{\"path\":", "\x00", "{\"path\":[\"/x\"]"}).Draw(t, "body")
			case 1:
				r.method, r.body = rapid.SampledFrom([]string{"GET", "PUT", "DELETE", "HEAD", "PATCH"}).Draw(t, "method"), "{}"
			case 2:
				r.method, r.path = rapid.SampledFrom([]string{"POST", "PUT", "DELETE"}).Draw(t, "method"), "/api/v1/"+rapid.SampledFrom(get).Draw(t, "get")+"/x"
			case 3:
				r.method, r.path = "GET", rapid.SampledFrom([]string{"/", "/api", "/api/v2/status", "/api/v1/create/repo/", "/api/v1/create/repo/a/b", "/api/v1/reset", "/api/v1/list", "/api/v1/list/x", "/nothing"}).Draw(t, "unknown")
			default:
				r.body = rapid.SampledFrom([]string{"{}x", "tru", "{\"a\"}", "{'a':1}", "\xff\xfe", "<xml/>"}).Draw(t, "body")
				if r.body == "{}x" { // a decoder of one value takes this
					r.body = "}{"
				}
			}
			rs = append(rs, r)
		}
		d := startBlocked(c)
		defer d.Kill()
		hc := &http.Client{Timeout: time.Minute, Transport: &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return net.Dial("unix", d.Sock) }}}
		defer hc.CloseIdleConnections()
		for _, r := range rs {
			c.Op("%s %s %q", r.method, r.path, r.body)
			q, err := http.NewRequest(r.method, "http://x"+r.path, strings.NewReader(r.body))
			if err != nil {
				vh.Abort("%v", err)
			}
			resp, err := hc.Do(q)
			if err != nil {
				alive(c, d, "C32")
				c.Fail("C32", "%s %s %q gets no answer: %v", r.method, r.path, r.body, err)
			} else {
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				c.Check(resp.StatusCode >= 400, "C32", "%s %s %q is answered with %s", r.method, r.path, r.body, resp.Status)
			}
		}
		if !vh.Answers(d.Sock) {
			alive(c, d, "C32")
			c.Fail("C32", "the daemon does not answer any more")
		}
		d.Kill()
		if q := queued(d.Base); len(q) > 0 {
			c.Fail("C32", "requests that are not valid queue %v", texts(q))
		}
		c.Nontrivial()
		c.End()
	})
}

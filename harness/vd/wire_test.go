//go:build go1.25

package vd

import (
	"encoding/json"
	"fmt"
	"net"
	"net/http"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C44: the client against a daemon of an earlier version, and the other way round
// in TestRequests and TestStatus.

// seen is what the stand-in was asked.
type seen struct {
	method, path, id string
	body             vh.WireBody
	bad              error
}

// asJSON leaves out how a text is encoded: what is not valid has one form only.
func asJSON(s string) string { return strings.ToValidUTF8(s, "\ufffd") }

func flat(b vh.WireBody) string {
	out, err := json.Marshal(&b)
	if err != nil {
		vh.Abort("%v", err)
	}
	return string(out)
}

// wants is what an earlier daemon has to be asked.
func (r request) wants() seen {
	b := vh.WireBody{}
	s := seen{method: "POST"}
	src := func(x string) *string { x = asJSON(x); return &x }
	switch r.kind {
	case "create", "remove", "delta", "index":
		s.method, s.path = "GET", r.kind+"/repo"
	case "obsolete":
		s.method, s.path = "GET", "trim/obsoletes"
	case "import":
		s.path = "import"
		for _, p := range r.list {
			b.Path = append(b.Path, asJSON(p))
		}
	case "clone":
		s.path, b.CloneName, b.CopyAll = "clone", src(r.b), &r.flag
	case "pull":
		s.path, b.Source = "pull", src(r.a)
	case "removeSource":
		s.path, b.Source, b.Release = "remove/source", src(r.s), &r.n
	case "copySource":
		s.path, b.Target, b.Source, b.Release, b.SkipIndex = "copy/source", src(r.b), src(r.s), &r.n, &r.flag
	case "trim":
		s.path, b.MaxKeep = "trim/packages", &r.n
	}
	s.id, s.body = r.id(), b
	return s
}

func aTime(t *rapid.T, l string) time.Time {
	if rapid.IntRange(0, 3).Draw(t, l+" none") == 0 {
		return time.Time{}
	}
	return time.Unix(rapid.Int64Range(0, 1<<33).Draw(t, l), rapid.Int64Range(0, 999999999).Draw(t, l+" ns")).UTC()
}

func wireJobs(t *rapid.T, l string) []*vh.WireJob {
	var out []*vh.WireJob
	for i := rapid.IntRange(0, 4).Draw(t, l); i > 0; i-- {
		out = append(out, &vh.WireJob{Description: rapid.String().Draw(t, "description"), Failed: rapid.Bool().Draw(t, "failed"), Error: rapid.String().Draw(t, "error"),
			Timing: vh.WireTiming{Queued: aTime(t, "queued"), Begin: aTime(t, "begin"), End: aTime(t, "end")}})
	}
	return out
}

// TestWire has a daemon of an earlier version answer.
func TestWire(t *testing.T) {
	vh.SetRule("1-10 requests of all 11 kinds and the listings, the status and the resets, through libferry.Client to a stand-in that reads and answers them in the form of the pinned version, with success or a generated error; what it was asked, and what the client makes of the answer, is compared. Non-trivial: a name with a special character, or an answer with content.")
	sock := filepath.Join(vh.Scratch(t), "s")
	var mu sync.Mutex
	var got []seen
	var answer any
	l, err := net.Listen("unix", sock)
	if err != nil {
		vh.Abort("%v", err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		s := seen{method: r.Method}
		s.path = strings.TrimPrefix(r.URL.Path, "/api/v1/")
		// the last two parts of an address are never a name in any of these
		known := false
		for _, p := range []string{"create/repo", "remove/repo", "delta/repo", "index/repo", "trim/obsoletes", "import", "clone", "copy/source", "pull", "remove/source", "trim/packages"} {
			if strings.HasPrefix(s.path, p+"/") {
				s.path, s.id, known = p, s.path[len(p)+1:], true
				break
			}
		}
		if !known {
			switch s.path {
			case "status", "reset/completed", "reset/failed", "list/repos", "list/pool":
			default:
				s.bad = fmt.Errorf("no such address: %q", r.URL.Path)
			}
		}
		if s.method == "POST" && s.bad == nil {
			s.bad = json.NewDecoder(r.Body).Decode(&s.body)
		}
		got = append(got, s)
		if s.bad != nil {
			http.Error(w, s.bad.Error(), http.StatusNotFound)
			return
		}
		if answer != nil {
			if e, ok := answer.(*vh.WireResponse); ok && e.Error {
				w.WriteHeader(http.StatusBadRequest)
			}
			json.NewEncoder(w).Encode(answer)
		}
	})}
	go srv.Serve(l)
	defer srv.Close()
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		cl := client(sock)
		defer cl.Close()
		asked := func(what string, ans any, f func() error) (seen, error) {
			mu.Lock()
			got, answer = nil, ans
			mu.Unlock()
			var err error
			if o := vh.Guard(func() error { err = f(); return nil }); o.Broken() != "" {
				c.Fail("C44", "%s: %s", what, o.Broken())
			}
			mu.Lock()
			defer mu.Unlock()
			if len(got) != 1 {
				c.Fail("C44", "%s: the daemon is asked %d times (%v)", what, len(got), err)
				return seen{}, err
			}
			if got[0].bad != nil {
				c.Fail("C44", "%s: an earlier daemon does not understand %s %s: %v", what, got[0].method, short(got[0].path), got[0].bad)
			}
			return got[0], err
		}
		for i := rapid.IntRange(1, 10).Draw(t, "requests"); i > 0; i-- {
			r := aRequest().Draw(t, "request")
			if !r.routable() {
				continue
			}
			c.Op("%s", short(r.String()))
			c.Label(r.kind)
			if strings.ContainsAny(r.a+r.b+r.s, "/%?#+;&<> \"\\\n\x00") {
				c.Nontrivial()
			}
			var ans any
			msg := ""
			if rapid.IntRange(0, 3).Draw(t, "refused") == 0 {
				msg = rapid.StringN(1, 30, -1).Draw(t, "message")
				ans = &vh.WireResponse{Error: true, ErrorString: msg}
			}
			s, err := asked(short(r.String()), ans, func() error { return r.send(cl) })
			w := r.wants()
			if s.method != w.method || s.path != w.path || s.id != w.id || (w.method == "POST" && flat(s.body) != flat(w.body)) {
				c.Fail("C44", "%s: the daemon is asked %s %s %q %s, an earlier one wants %s %s %q %s", short(r.String()), s.method, s.path, short(s.id), short(flat(s.body)), w.method, w.path, short(w.id), short(flat(w.body)))
			}
			if msg == "" && err != nil {
				c.Fail("C44", "%s: the success of an earlier daemon is reported as %v", short(r.String()), err)
			}
			if msg != "" && (err == nil || err.Error() != asJSON(msg)) {
				c.Fail("C44", "%s: the error %q of an earlier daemon is reported as %v", short(r.String()), msg, err)
			}
		}
		for _, r := range []struct {
			path string
			f    func() error
		}{{"reset/completed", cl.ResetCompleted}, {"reset/failed", cl.ResetFailed}} {
			s, err := asked(r.path, nil, r.f)
			c.Check(s.path == r.path && s.method == "GET" && err == nil, "C44", "%s: an earlier daemon is asked %s %s, %v", r.path, s.method, s.path, err)
		}
		lr := &vh.WireRepos{Repos: rapid.SliceOfN(rapid.String(), 0, 4).Draw(t, "repos")}
		var repos []string
		s, err := asked("listing repositories", lr, func() (err error) { repos, err = cl.GetRepos(); return })
		c.Check(s.path == "list/repos" && s.method == "GET" && err == nil && fmt.Sprintf("%q", repos) == fmt.Sprintf("%q", lr.Repos), "C44", "an earlier daemon lists %q (%s %s), the client gives %q, %v", lr.Repos, s.method, s.path, repos, err)
		lp := &vh.WirePool{}
		for i := rapid.IntRange(0, 4).Draw(t, "items"); i > 0; i-- {
			lp.Items = append(lp.Items, vh.WirePoolItem{ID: rapid.String().Draw(t, "id"), RefCount: rapid.IntRange(0, 1<<40).Draw(t, "refs")})
		}
		var items []libferry.PoolItem
		s, err = asked("listing the pool", lp, func() (err error) { items, err = cl.GetPoolItems(); return })
		var back []vh.WirePoolItem
		for _, i := range items {
			back = append(back, vh.WirePoolItem{ID: i.ID, RefCount: i.RefCount})
		}
		c.Check(s.path == "list/pool" && s.method == "GET" && err == nil && reflect.DeepEqual(back, lp.Items), "C44", "an earlier daemon lists %v (%s %s), the client gives %v, %v", lp.Items, s.method, s.path, items, err)
		ls := &vh.WireStatus{TimeStarted: aTime(t, "started"), Version: rapid.String().Draw(t, "version"), FailedJobs: wireJobs(t, "failed"), CurrentJobs: wireJobs(t, "current"), CompletedJobs: wireJobs(t, "completed")}
		if len(ls.FailedJobs)+len(ls.CurrentJobs)+len(ls.CompletedJobs)+len(items)+len(repos) > 0 {
			c.Nontrivial()
		}
		var st *libferry.StatusRequest
		s, err = asked("the status", ls, func() (err error) { st, err = cl.GetStatus(); return })
		c.Check(s.path == "status" && s.method == "GET" && err == nil, "C44", "an earlier daemon is asked %s %s for the status: %v", s.method, s.path, err)
		if err == nil && st != nil {
			if !st.TimeStarted.Equal(ls.TimeStarted) || st.Version != ls.Version {
				c.Fail("C44", "an earlier daemon says it is %q started at %v, the client gives %q, %v", ls.Version, ls.TimeStarted, st.Version, st.TimeStarted)
			}
			jobs := func(what string, in []*vh.WireJob, out libferry.JobSet) {
				var w, g []string
				for _, j := range in {
					w = append(w, fmt.Sprintf("%q %v %q %d %d %d", j.Description, j.Failed, j.Error, j.Timing.Queued.UnixNano(), j.Timing.Begin.UnixNano(), j.Timing.End.UnixNano()))
				}
				for _, j := range out {
					g = append(g, fmt.Sprintf("%q %v %q %d %d %d", j.Description, j.Failed, j.Error, j.Timing.Queued.UnixNano(), j.Timing.Begin.UnixNano(), j.Timing.End.UnixNano()))
				}
				c.Check(strings.Join(w, "\n") == strings.Join(g, "\n"), "C44", "an earlier daemon gives the %s jobs %s, the client %s", what, short(strings.Join(w, "; ")), short(strings.Join(g, "; ")))
			}
			jobs("failed", ls.FailedJobs, st.FailedJobs)
			jobs("current", ls.CurrentJobs, st.CurrentJobs)
			jobs("completed", ls.CompletedJobs, st.CompletedJobs)
		}
		c.End()
	})
}

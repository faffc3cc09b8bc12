//go:build go1.25

package vcore

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
	"github.com/getsolus/ferryd/src/zverif/vos"
)

// C40: what the content delivery network is asked to drop, against a stand-in
// that records the requests and answers them as generated.

const purgeHome = "/etc/ferryd"

type purgeReq struct {
	method, host, path, auth string
	raw                      string
	body                     map[string]any
	index                    map[string]string // the published index files at that time
}

type cdn struct {
	mu     sync.Mutex
	w      *World
	dir    string // stands for /etc
	reqs   []purgeReq
	answer func() (int, string, error)
	target string
	token  string
	zone   string
	v      []int // the choices
	n      int
}

// RoundTrip stands in for the network.
func (c *cdn) RoundTrip(q *http.Request) (*http.Response, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	r := purgeReq{method: q.Method, host: q.URL.Host, path: q.URL.Path, auth: q.Header.Get("Authorization")}
	if q.Body != nil {
		b, _ := io.ReadAll(q.Body)
		q.Body.Close()
		r.raw = string(b)
		json.Unmarshal(b, &r.body)
	}
	r.index = indexFiles(c.w.repoDir(c.target))
	c.reqs = append(c.reqs, r)
	code, body, err := c.answer()
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, ContentLength: int64(len(body)), Body: io.NopCloser(strings.NewReader(body)), Request: q}, nil
}

func (r purgeReq) files() ([]string, string) {
	for _, k := range vh.SortedKeys(r.body) {
		if k != "files" {
			return nil, k
		}
	}
	l, _ := r.body["files"].([]any)
	var out []string
	for _, x := range l {
		s, _ := x.(string)
		out = append(out, s)
	}
	return out, ""
}

func (c *cdn) next(n int) int {
	c.n++
	return mix(c.v[c.n%len(c.v)]+c.n*37+c.n/len(c.v)*11, n)
}

var purgeURLs = []string{"https://cdn.example.com/%s/eopkg-index.xml.xz", "https://cdn.example.com/%s/eopkg-index.xml", "https://a.example.org/%s/eopkg-index.xml.sha1sum?x=1&y=<2>", "https://cdn.example.com/%s/grö%%20ße/index"}

// lists writes the lists of addresses anew.
func (c *cdn) lists() map[string][]string {
	home := filepath.Join(c.dir, "ferryd")
	os.RemoveAll(home)
	m := map[string][]string{}
	if c.next(13) == 0 {
		return m
	}
	if err := os.MkdirAll(home, 0o755); err != nil {
		vh.Abort("%v", err)
	}
	for _, r := range append([]string{"other", "ferryd"}, c.w.names...) {
		if c.next(4) == 0 {
			continue
		}
		n := 1 + c.next(4)
		if c.next(6) == 0 {
			n = 5 + c.next(25)
		}
		text := ""
		for i := 0; i < n; i++ {
			u := fmt.Sprintf(purgeURLs[c.next(len(purgeURLs))], r) + fmt.Sprint(i)
			if i > 0 {
				// at times much like the one before
				p := m[r][i-1]
				q := p
				switch c.next(9) {
				case 0:
					q = p + ".sha1sum"
				case 1:
					q = p + "/"
				case 2:
					q = strings.Replace(p, "https:", "http:", 1)
				case 3:
					q = strings.ToUpper(p)
				case 4:
					q = p[:len(p)-1]
				case 5:
					q = p + "?v=1"
				}
				if q != p && !contains(m[r], q) {
					u = q
				}
			}
			m[r] = append(m[r], u)
			text += strings.Repeat("\n", max(0, c.next(5)-2)) + u + "\n"
		}
		if c.next(3) == 0 {
			text = strings.TrimSuffix(text, "\n")
		}
		if err := os.WriteFile(filepath.Join(home, r), []byte(text), 0o644); err != nil {
			vh.Abort("%v", err)
		}
	}
	return m
}

var purgeAnswers = []struct {
	ok   bool
	code int
	body string
	what string
}{
	{true, 200, `{"success":true,"errors":[],"messages":[],"result":{"id":"x"}}`, "success"},
	{true, 200, `{"success":true,"errors":null,"messages":[{"code":1,"message":"m"}],"result":{"id":"x"}}`, "success"},
	{false, 400, `{"success":false,"errors":[{"code":1012,"message":"no such zone"}],"messages":[],"result":null}`, "400"},
	{false, 403, `{"success":false,"errors":[{"code":10000,"message":"Authentication error"}],"messages":[],"result":null}`, "403"},
	{false, 404, `<html>`, "404 that is not readable"},
	{false, 200, `{"success":false,"errors":[{"code":1,"message":"out of luck"}],"messages":[],"result":null}`, "no success"},
	{false, 200, `{"success":false,"errors":[],"messages":[],"result":null}`, "no success for no reason"},
	{false, 200, `{"success":false,"errors":[{"code":7,"message":"busy"}],"messages":[{"code":1,"message":"later"}],"result":{"id":"x"}}`, "no success with a result"},
	{false, 200, `{"success":false}`, "no success and nothing else"},
	{false, 200, `<html>`, "an answer that is not readable"},
	{false, 200, ``, "an empty answer"},
}

// step surrounds one operation.
func (c *cdn) step(name string, e expect, f func() error) vh.Outcome {
	w := c.w
	w.hidden = false
	c.mu.Lock()
	c.reqs, c.target = nil, e.target
	c.mu.Unlock()
	lists := c.lists()
	c.token, c.zone = "tok-"+fmt.Sprint(c.next(1000)), "zone"+fmt.Sprint(c.next(1000))
	switch c.next(9) {
	case 0:
		c.token = ""
	case 1:
		c.zone = ""
	}
	os.Setenv("CLOUDFLARE_API_TOKEN", c.token)
	os.Setenv("CLOUDFLARE_ZONE_ID", c.zone)
	if c.token == "" && c.next(2) == 0 {
		os.Unsetenv("CLOUDFLARE_API_TOKEN")
	}
	if c.zone == "" && c.next(2) == 0 {
		os.Unsetenv("CLOUDFLARE_ZONE_ID")
	}
	a := purgeAnswers[0]
	if c.next(3) == 0 {
		a = purgeAnswers[c.next(len(purgeAnswers))]
	}
	c.answer = func() (int, string, error) { return a.code, a.body, nil }
	configured := c.token != "" && c.zone != ""
	list, listed := lists[e.target]
	unreadable := false
	if p := filepath.Join(c.dir, "ferryd", e.target); configured && e.target != "" && c.next(25) == 0 && listed {
		os.Remove(p)
		if os.Mkdir(p, 0o755) == nil {
			unreadable, listed = true, false
		}
	}
	w.Op("%s   [token %q zone %q, %d addresses listed, unreadable %v, answer: %s]", w.indent, c.token, c.zone, len(list), unreadable, a.what)
	o := vh.Guard(f)
	c.mu.Lock()
	reqs := c.reqs
	c.mu.Unlock()
	if b := o.Broken(); b != "" {
		w.Fail("C40,C30", "%s: %s", name, b)
		return o
	}
	reaches := e.index && !e.err // the operation publishes a new index
	if !reaches || !configured || !listed {
		if len(reqs) > 0 {
			w.Fail("C40", "%s (indexes: %v; token %q, zone %q, a list: %v) asks %s %s for %s", name, reaches, c.token, c.zone, listed, reqs[0].method, reqs[0].path, reqs[0].raw)
		}
		if reaches && unreadable {
			w.Label("list that cannot be read")
			if o.Err == nil {
				w.Fail("C40", "the list for %q cannot be read, and %s reports nothing", e.target, name)
			}
			w.hidden = o.Err != nil
			o.Err = nil
		}
		if reaches {
			w.Label("nobody to ask")
		}
		return o
	}
	if o.Err != nil && len(reqs) == 0 {
		w.Fail("C40", "%s fails and asks for nothing: %v", name, o.Err)
		return o
	}
	var got []string
	now := indexFiles(w.repoDir(e.target))
	for _, r := range reqs {
		fs, odd := r.files()
		if odd != "" {
			w.Fail("C40", "%s asks to drop %s (%s)", name, odd, r.raw)
		}
		got = append(got, fs...)
		if r.method != "POST" || !strings.HasSuffix(r.path, "/zones/"+c.zone+"/purge_cache") || r.host != "api.cloudflare.com" {
			w.Fail("C40", "%s asks %s %s%s, the zone is %q", name, r.method, r.host, r.path, c.zone)
		}
		if r.auth != "Bearer "+c.token {
			w.Fail("C40", "%s asks as %q, the token is %q", name, r.auth, c.token)
		}
		if d := sameMap(r.index, now); d != "" {
			w.Fail("C40", "%s asks for the old index to be dropped before the new one is in place: %s", name, d)
		}
	}
	if a.ok {
		sort.Strings(got)
		want := append([]string{}, list...)
		sort.Strings(want)
		if strings.Join(got, "\n") != strings.Join(want, "\n") {
			w.Fail("C40", "%s of %q asks to drop %q; listed are %q", name, e.target, got, want)
		}
		w.Label("asked")
	} else {
		w.Label("asked in vain")
		if len(reqs) == 0 {
			w.Fail("C40", "%s of %q asks nobody to drop %q", name, e.target, list)
		}
		for _, g := range got {
			if !contains(list, g) {
				w.Fail("C40", "%s of %q asks to drop %q, which is not listed", name, e.target, g)
			}
		}
		if o.Err == nil && len(reqs) > 0 {
			w.Fail("C40", "the request to drop the old index of %q is answered with %s, and %s reports nothing", e.target, a.what, name)
		}
		// all else is as after a success
		w.hidden = o.Err != nil
		o.Err = nil
	}
	return o
}

var errNoNetwork = errors.New("the checks have no network")

// TestPurge has operations tell the delivery network about new indices.
func TestPurge(t *testing.T) {
	vh.SetRule("random histories of 4-16 operations with a token, a zone and lists of 1-30 addresses for the repositories (blank lines, lists for others, none, one that cannot be read), each sometimes missing; the delivery network answers with success or one of eight failures. Every operation that publishes an index has to ask for exactly the listed addresses once the index is in place and report a refusal, and is otherwise judged as ever; no other may ask. Indexing is also tried with spoilt asset files. Non-trivial: a request succeeded and one was refused or had no list.")
	dir := vh.Scratch(t)
	c := &cdn{dir: dir}
	oldTransport := http.DefaultTransport
	http.DefaultTransport = c
	vos.Elsewhere = func(p string) string {
		if s, ok := strings.CutPrefix(p, "/etc/"); ok {
			return filepath.Join(dir, s)
		}
		return p
	}
	defer func() {
		http.DefaultTransport = oldTransport
		vos.Elsewhere = nil
		os.Unsetenv("CLOUDFLARE_API_TOKEN")
		os.Unsetenv("CLOUDFLARE_ZONE_ID")
	}()
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		w.extra = "C40"
		defer w.Cleanup()
		defer w.close()
		c.w, c.n = w, 0
		c.v = rapid.SliceOfN(rapid.IntRange(0, 1023), 16, 16).Draw(rt, "choices")
		c.answer = func() (int, string, error) { return 0, "", errNoNetwork }
		w.genUniverse()
		w.around = c.step
		w.prelude()
		for _, o := range genOpsN(rt, 4, 16) {
			if w.dead {
				break
			}
			w.apply(o)
		}
		// an indexing that fails leaves the old index, and nothing is to be dropped
		if r := w.repoOf(w.last, c.next(100), false); !w.dead && w.last.Repos[r] != nil {
			c.spoilt(r)
			w.trees = w.snapTrees()
			w.doIndex(r)
		}
		if w.Has("asked") && (w.Has("asked in vain") || w.Has("nobody to ask")) {
			w.Nontrivial()
		}
		w.End()
	})
}

// spoilt indexes a repository one of whose assets is useless.
func (c *cdn) spoilt(r string) {
	w := c.w
	what, undo := w.spoil(r, []int{c.next(3), c.next(6), c.next(100)})
	defer undo()
	c.mu.Lock()
	c.reqs, c.target = nil, r
	c.mu.Unlock()
	lists := c.lists()
	os.Setenv("CLOUDFLARE_API_TOKEN", "tok")
	os.Setenv("CLOUDFLARE_ZONE_ID", "zone")
	c.answer = func() (int, string, error) { return purgeAnswers[0].code, purgeAnswers[0].body, nil }
	w.Op("%s of %q (%d addresses listed): index %q", what, r, len(lists[r]), r)
	o := vh.Guard(func() error { return w.m.Index(r) })
	if b := o.Broken(); b != "" {
		w.dead = true
		w.Fail("C40,C30", "indexing %q with %s: %s", r, what, b)
		return
	}
	if o.Err == nil {
		w.Label("spoilt:accepted")
		return
	}
	w.Label("spoilt:refused")
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.reqs) > 0 {
		w.Fail("C40", "indexing %q with %s fails (%v), and all the same %s is to be dropped", r, what, o.Err, c.reqs[0].raw)
	}
}

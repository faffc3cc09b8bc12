//go:build go1.25

package vd

import (
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C39: what ferryctl shows, against a recorder in the daemon's place that
// answers with generated status reports and listings.

type shownJob struct {
	desc, err          string
	queued, begin, end time.Time
	failed             bool
}

var showWords = []string{"Creating", "repository", "unstable", "'nano'", "100%", "%s", "%d%%", "%!v(MISSING)", "Größe", "パッケージ", "a\\b", "<x&y>", "\"quoted\"", "--all", "nano-5.5-71-1-x86_64.eopkg", "/var/lib/ferryd/incoming/unstable/nano-5.5-71-1-x86_64.tram", "failed:", "no", "such", "file", "or", "directory", "0", "1", "+", "x=", "tracked)", "jobs:", "$HOME", "`id`", "e\u0301"}

// words makes a text of a few words; where it is shown in a table, its lines
// are broken and its blanks may be any.
func words(t *rapid.T, what string, least int) string {
	n := rapid.IntRange(least, 9).Draw(t, what)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(rapid.SampledFrom([]string{" ", " ", " ", "  ", "\n"}).Draw(t, "blank"))
		}
		b.WriteString(rapid.SampledFrom(showWords).Draw(t, "word"))
	}
	return b.String()
}

func squeeze(s string) string { return strings.Join(strings.Fields(s), " ") }

func (j shownJob) json() map[string]any {
	return map[string]any{"description": j.desc, "failed": j.failed, "error": j.err,
		"timing": map[string]any{"queued": j.queued, "begin": j.begin, "end": j.end}}
}

// span makes a duration with a generated resolution.
func span(t *rapid.T, what string) time.Duration {
	u := rapid.SampledFrom([]time.Duration{time.Nanosecond, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour}).Draw(t, what+" unit")
	return time.Duration(rapid.IntRange(1, 5000).Draw(t, what)) * u
}

// jobList makes a list of jobs no two of which were queued at the same time.
func jobList(t *rapid.T, kind string, now time.Time) []shownJob {
	n := rapid.OneOf(rapid.IntRange(0, 4), rapid.SampledFrom([]int{9, 10, 11, 12, 25})).Draw(t, kind)
	used := map[int64]bool{}
	var out []shownJob
	for i := 0; i < n; i++ {
		ago := span(t, "ago") + time.Second
		if i > 0 && rapid.IntRange(0, 3).Draw(t, "close") == 0 {
			ago = now.Sub(out[i-1].queued) + time.Duration(rapid.IntRange(-3, 3).Draw(t, "step"))
		}
		for used[int64(ago)] {
			ago++
		}
		used[int64(ago)] = true
		j := shownJob{desc: words(t, "description", 0), queued: now.Add(-ago)}
		if kind != "current" || rapid.Bool().Draw(t, "begun") {
			j.begin = j.queued.Add(span(t, "waited"))
			switch rapid.IntRange(0, 11).Draw(t, "clock") {
			case 1:
				j.begin = j.queued
			case 2: // it was set
				j.begin = j.queued.Add(-span(t, "back"))
			}
		}
		if kind != "current" {
			j.end = j.begin.Add(span(t, "took"))
		}
		if kind == "failed" {
			j.failed, j.err = true, words(t, "error", 1)
		}
		out = append(out, j)
	}
	return out
}

type section struct {
	tracked string
	rows    [][]string
}

var sectionLine = regexp.MustCompile(`^(Failed|Current/Active|Completed) jobs: \((\d+) tracked\)$`)

// sections reads the tables of a status: rows of cells, with lines that were
// broken joined again.
func sections(out string) (map[string]*section, []string, []string) {
	m := map[string]*section{}
	var order, head []string
	var cur *section
	headSeen := false
	for _, l := range strings.Split(out, "\n") {
		if g := sectionLine.FindStringSubmatch(strings.TrimSpace(l)); g != nil {
			cur = &section{tracked: g[2]}
			m[g[1]] = cur
			order = append(order, g[1])
			headSeen = false
			continue
		}
		if cur == nil {
			head = append(head, l)
			continue
		}
		if !strings.Contains(l, "|") {
			continue
		}
		cells := strings.Split(l, "|")
		for i := range cells {
			cells[i] = strings.TrimSpace(cells[i])
		}
		if !headSeen {
			headSeen = true
			continue
		}
		if cells[0] == "" && len(cur.rows) > 0 {
			last := cur.rows[len(cur.rows)-1]
			for i := range cells {
				if i < len(last) {
					last[i] = strings.TrimSpace(last[i] + " " + cells[i])
				}
			}
			continue
		}
		cur.rows = append(cur.rows, cells)
	}
	return m, order, head
}

const shownTime = "2006-01-02 15:04:05"

// TestShow runs the commands that show something.
func TestShow(t *testing.T) {
	vh.SetRule("1-3 runs of the built ferryctl with status (with and without -a), list repos or list pool against a recorder that answers with a generated report: up to 25 jobs per list in any order, descriptions and errors of several lines with format verbs and wide letters, repository names and pool entries of any text; sometimes it answers with an error, with text that is no answer, or breaks off. Each job has to be shown with its own times and text, in order, at most ten per list unless asked for all. Non-trivial: a status with more than ten jobs in a list or two lists that are not empty, a listing with two or more entries, or an answer that cannot be shown.")
	dir := vh.Scratch(t)
	os.Chmod(dir, 0o755)
	vh.Unprivileged()
	rec := newRecorder(filepath.Join(dir, "s"))
	defer rec.srv.Close()
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "runs"); i < n; i++ {
			what := rapid.SampledFrom([]string{"status", "status", "status", "repos", "pool"}).Draw(t, "what")
			rec.reset("")
			rec.mu.Lock()
			rec.raw, rec.code = "", 0
			rec.mu.Unlock()
			if bad := rapid.IntRange(0, 6).Draw(t, "bad"); bad >= 5 {
				showBad(t, c, rec, dir, what)
				continue
			}
			switch what {
			case "status":
				showStatus(t, c, rec, dir)
			case "repos":
				showRepos(t, c, rec, dir)
			case "pool":
				showPool(t, c, rec, dir)
			}
		}
		c.End()
	})
}

func (r *recorder) answer(m map[string]any) {
	r.mu.Lock()
	r.reply = m
	r.mu.Unlock()
}

func showBad(t *rapid.T, c *vh.Case, rec *recorder, dir, what string) {
	args := map[string][]string{"status": {"status"}, "repos": {"list", "repos"}, "pool": {"list", "pool"}}[what]
	reason := ""
	switch rapid.IntRange(0, 3).Draw(t, "badness") {
	case 0:
		reason = squeeze(words(t, "reason", 1))
		rec.reset(reason)
		c.Op("ferryctl %v is answered with the error %q", args, reason)
	case 1:
		raw := rapid.SampledFrom([]string{"", "{", `{"repos":["a","b"`, `{"items":[{"id":"a","refCount":1},`, "<html>", "[]", `"x"`, `{"repos":5,"items":5,"failedJobs":5}`, `{"repos":[1],"items":["x"],"currentJobs":["x"]}`}).Draw(t, "raw")
		rec.mu.Lock()
		rec.raw, rec.code = raw, http.StatusOK
		rec.mu.Unlock()
		c.Op("ferryctl %v is answered with %q", args, raw)
	case 2:
		rec.mu.Lock()
		rec.raw, rec.code = "gone fishing", rapid.SampledFrom([]int{400, 404, 405, 500, 503}).Draw(t, "code")
		c.Op("ferryctl %v is answered with %d and no readable answer", args, rec.code)
		rec.mu.Unlock()
	case 3:
		rec.mu.Lock()
		rec.raw, rec.code = "", -1
		rec.mu.Unlock()
		c.Op("ferryctl %v: the daemon hangs up without an answer", args)
	}
	p := vh.Run("VERIF_FERRYCTL", dir, append([]string{"-s", rec.sock}, args...)...)
	rec.mu.Lock()
	rec.raw, rec.code = "", 0
	rec.mu.Unlock()
	rec.reset("")
	c.Label("no answer to show")
	c.Nontrivial()
	out := p.Output()
	c.Check(strings.TrimSpace(out) != "", "C39", "ferryctl %v got no usable answer and says nothing", args)
	c.Check(strings.Contains(squeeze(out), reason), "C39", "ferryctl %v: the daemon answers %q, it prints %q", args, reason, short(out))
	for _, claim := range []string{"No repositories have been", "No pool items have been", "Currently known", "Currently registered", "Daemon version", "tracked)\n\n"} {
		c.Check(!strings.Contains(out, claim), "C39", "ferryctl %v got no usable answer and prints %q", args, short(out))
	}
	c.Check(!strings.Contains(out, "panic:") && !strings.Contains(out, "goroutine "), "C39", "ferryctl %v ends in a crash: %s", args, short(out))
}

func showStatus(t *rapid.T, c *vh.Case, rec *recorder, dir string) {
	now := time.Now().UTC()
	lists := map[string][]shownJob{}
	reply := map[string]any{}
	version := rapid.SampledFrom([]string{"1.2.3", "0.0.0-dev", "", "v%d", "5 beta"}).Draw(t, "version")
	started := now.Add(-span(t, "up"))
	reply["version"], reply["timeStarted"] = version, started
	filled := 0
	for _, k := range []struct{ kind, key, title string }{{"failed", "failedJobs", "Failed"}, {"current", "currentJobs", "Current/Active"}, {"completed", "completedJobs", "Completed"}} {
		l := jobList(t, k.kind, now)
		if len(l) > 0 {
			filled++
			lists[k.title] = l
		}
		if len(l) > 10 {
			c.Label("more than ten jobs")
			c.Nontrivial()
		}
		js := []map[string]any{}
		for _, j := range l {
			js = append(js, j.json())
		}
		reply[k.key] = js
		if len(js) == 0 && rapid.Bool().Draw(t, "null") {
			reply[k.key] = nil
		}
	}
	if filled > 1 {
		c.Nontrivial()
	}
	c.Label("status")
	args := []string{"status"}
	all := rapid.Bool().Draw(t, "all")
	if all {
		args = append(args, rapid.SampledFrom([]string{"-a", "--all", "--all=true"}).Draw(t, "flag"))
	}
	rec.answer(reply)
	c.Op("ferryctl %v: %d failed, %d current, %d completed jobs are answered", args, len(lists["Failed"]), len(lists["Current/Active"]), len(lists["Completed"]))
	t0 := time.Now()
	p := vh.Run("VERIF_FERRYCTL", dir, append([]string{"-s", rec.sock}, args...)...)
	t1 := time.Now()
	out := p.Output()
	got, order, head := sections(out)
	heads := strings.Join(head, "\n")
	c.Check(strings.Contains(heads, "Daemon version: "+version), "C39", "the daemon's version is %q, ferryctl prints %q", version, short(heads))
	up := ""
	for _, l := range head {
		if _, s, ok := strings.Cut(l, "Daemon uptime: "); ok {
			up = strings.TrimSpace(s)
		}
	}
	c.Check(between(up, started, t0, t1), "C39", "the daemon runs since %v, ferryctl at %v prints an uptime of %q", started, t0.UTC(), up)
	for title := range got {
		c.Check(len(lists[title]) > 0, "C39", "ferryctl shows %s jobs, there are none", title)
	}
	c.Check(len(order) == len(got), "C39", "ferryctl shows a list twice: %v", order)
	for _, title := range vh.SortedKeys(lists) {
		l := append([]shownJob{}, lists[title]...)
		s := got[title]
		if s == nil {
			c.Fail("C39", "ferryctl %v does not show the %d %s jobs: %s", args, len(l), title, short(out))
			continue
		}
		c.Check(s.tracked == fmt.Sprint(len(l)), "C39", "ferryctl says %s %s jobs are tracked, there are %d", s.tracked, title, len(l))
		sort.Slice(l, func(a, b int) bool { return l[a].queued.Before(l[b].queued) == (title == "Current/Active") })
		if !all && len(l) > 10 {
			l = l[:10]
		}
		if len(s.rows) != len(l) {
			c.Fail("C39", "ferryctl %v shows %d of the %d %s jobs, expected %d: %s", args, len(s.rows), len(lists[title]), title, len(l), short(out))
			continue
		}
		for i, j := range l {
			row := s.rows[i]
			var want []string
			switch title {
			case "Failed":
				want = []string{"failed", j.end.Format(shownTime), j.end.Sub(j.begin).String(), squeeze(j.desc), squeeze(j.err)}
			case "Completed":
				want = []string{"success", j.end.Format(shownTime), j.end.Sub(j.queued).String(), j.end.Sub(j.begin).String(), squeeze(j.desc)}
			default:
				st := "queued"
				if !j.begin.IsZero() {
					st = "running"
				}
				want = []string{st, j.queued.Format(shownTime), "", squeeze(j.desc)}
				if len(row) > 2 {
					c.Check(between(row[2], j.queued, t0, t1), "C39", "the job queued at %v is shown, at %v, to have waited %q", j.queued, t0.UTC(), row[2])
					row[2] = ""
				}
			}
			for k := range row {
				row[k] = squeeze(row[k])
			}
			c.Check(strings.Join(row, "|") == strings.Join(want, "|"), "C39", "%s job %d is shown as %q, expected %q", title, i, row, want)
		}
	}
}

// between says whether a printed duration is the time since from, measured from t0 to t1.
func between(printed string, from, t0, t1 time.Time) bool {
	d, err := time.ParseDuration(printed)
	const slack = 50 * time.Millisecond // the clocks are the same, but may be stepped a little
	return err == nil && d >= t0.Sub(from)-slack && d <= t1.Sub(from)+slack
}

func entryText(t *rapid.T) string {
	s := rapid.OneOf(rapid.SampledFrom(oddNames), rapid.SampledFrom([]string{"unstable", "shannon", "%d", "%s%v", "a | b", " x", "x "}), rapid.StringN(1, 10, -1)).Draw(t, "entry")
	return strings.NewReplacer("\n", "n", "\r", "r", "\x00", "0").Replace(strings.ToValidUTF8(s, "?"))
}

func entries(t *rapid.T) []string {
	n := rapid.IntRange(0, 12).Draw(t, "entries")
	seen := map[string]bool{}
	var out []string
	for i := 0; i < n; i++ {
		s := entryText(t)
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "like") == 1 {
			// like the one before
			p := out[i-1]
			stem := strings.TrimSuffix(p, ".eopkg")
			s = rapid.SampledFrom([]string{stem + ".eopkg", stem + ".delta.eopkg", stem + "-dbginfo.eopkg", strings.ToUpper(p), p + " ", p + "x", p + p, strings.TrimSuffix(stem, ".delta")}).Draw(t, "kin")
		}
		if s == "" || seen[s] {
			s = fmt.Sprintf("e%d", i)
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

func showRepos(t *rapid.T, c *vh.Case, rec *recorder, dir string) {
	l := entries(t)
	rec.answer(map[string]any{"repos": l})
	c.Op("ferryctl list repos is answered with %q", l)
	p := vh.Run("VERIF_FERRYCTL", dir, "-s", rec.sock, "list", "repos")
	c.Label("list repos")
	if len(l) > 1 {
		c.Nontrivial()
	}
	var got []string
	for _, s := range strings.Split(p.Output(), "\n") {
		if e, ok := strings.CutPrefix(s, " * "); ok {
			got = append(got, e)
		}
	}
	sort.Strings(l)
	c.Check(strings.Join(got, "\n") == strings.Join(l, "\n"), "C39", "the repositories are %q, ferryctl lists %q", l, got)
	if len(l) == 0 {
		c.Check(strings.Contains(p.Output(), "No repositories"), "C39", "there are no repositories, ferryctl prints %q", short(p.Output()))
	}
}

func showPool(t *rapid.T, c *vh.Case, rec *recorder, dir string) {
	l := entries(t)
	var items []map[string]any
	var want []string
	for _, e := range l {
		n := rapid.OneOf(rapid.IntRange(0, 2), rapid.IntRange(1, 2), rapid.IntRange(0, 1<<40)).Draw(t, "count")
		items = append(items, map[string]any{"id": e, "refCount": n})
		want = append(want, fmt.Sprintf(" - RefCount: %d | %s", n, e))
	}
	rec.answer(map[string]any{"items": items})
	c.Op("ferryctl list pool is answered with %v", items)
	p := vh.Run("VERIF_FERRYCTL", dir, "-s", rec.sock, "list", "pool")
	c.Label("list pool")
	if len(l) > 1 {
		c.Nontrivial()
	}
	var got []string
	for _, s := range strings.Split(p.Output(), "\n") {
		if strings.HasPrefix(s, " - ") {
			got = append(got, s)
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	c.Check(strings.Join(got, "\n") == strings.Join(want, "\n"), "C39", "the pool is %q, ferryctl lists %q", want, got)
	if len(l) == 0 {
		c.Check(strings.Contains(p.Output(), "No pool items"), "C39", "the pool is empty, ferryctl prints %q", short(p.Output()))
	}
}

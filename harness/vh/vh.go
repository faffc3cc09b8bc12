//go:build go1.25

// Package vh is the common part of the verification harness: case accounting,
// violation reports, scratch space, guarded calls into the code under test.
package vh

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	log "github.com/sirupsen/logrus"
)

// T is what rapid.T and testing.T have in common for us.
type T interface {
	Helper()
	Fatalf(format string, args ...any)
	Logf(format string, args ...any)
}

var (
	// PID is the property this process decides.
	PID = os.Getenv("VERIF_PID")
	// Tier is quick or thorough.
	Tier    = os.Getenv("VERIF_TIER")
	outPath = os.Getenv("VERIF_OUT")
	// ScratchRoot is where every case keeps its files.
	ScratchRoot string
)

// Thorough reports the tier.
func Thorough() bool { return Tier == "thorough" }

type statsT struct {
	mu          sync.Mutex
	Evaluations int            `json:"evaluations"`
	Hashes      map[string]int `json:"hashes"`
	Labels      map[string]int `json:"labels"`
	Samples     []any          `json:"samples"`
	Foreign     map[string]int `json:"foreign"`
	Known       map[string]int `json:"known"`
	Rule        string         `json:"rule"`
	ForeignMsg  []string       `json:"foreign_msg"`
	frozen      bool
}

var stats = &statsT{Hashes: map[string]int{}, Labels: map[string]int{}, Foreign: map[string]int{}, Known: map[string]int{}}

// SetRule records how the cases are made and what makes one non-trivial.
func SetRule(r string) {
	stats.mu.Lock()
	stats.Rule = r
	stats.mu.Unlock()
}

// Known records that a listed known finding was reproduced.
func Known(key string) {
	stats.mu.Lock()
	stats.Known[key]++
	stats.mu.Unlock()
}

// Label counts an event over the whole run.
func Label(l string, n int) {
	stats.mu.Lock()
	if !stats.frozen {
		stats.Labels[l] += n
	}
	stats.mu.Unlock()
}

// Main runs the tests of a harness package and writes what they did.
func Main(m *testing.M) {
	log.SetOutput(io.Discard)
	root := os.Getenv("VERIF_SCRATCH")
	if root == "" {
		root = os.TempDir()
	}
	dir, err := os.MkdirTemp(root, "vcase-")
	if err != nil {
		fmt.Fprintln(os.Stderr, "scratch:", err)
		os.Exit(3)
	}
	ScratchRoot = dir
	code := m.Run()
	os.RemoveAll(dir)
	stats.mu.Lock()
	defer stats.mu.Unlock()
	if outPath != "" {
		b, _ := json.Marshal(stats)
		if err := os.WriteFile(outPath, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	os.Exit(code)
}

// Case is one generated case.
type Case struct {
	T          T
	Also       string // tags that every further failure counts for
	Ops        []string
	labels     map[string]int
	nontrivial bool
	done       bool
	dir        string
}

// Begin opens a case.
func Begin(t T) *Case {
	return &Case{T: t, labels: map[string]int{}}
}

// Dir makes (once) and returns the scratch directory of the case.
func (c *Case) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(ScratchRoot, "c")
		if err != nil {
			Abort("scratch: %v", err)
		}
		c.dir = d
	}
	return c.dir
}

// Abort ends the process with an error that is not a verdict.
func Abort(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.RemoveAll(ScratchRoot)
	os.Exit(3)
}

// Op notes one step of the case.
func (c *Case) Op(format string, args ...any) {
	c.Ops = append(c.Ops, fmt.Sprintf(format, args...))
}

// Label counts an event of the case.
func (c *Case) Label(l string) { c.labels[l]++ }

// Has says whether the event occurred.
func (c *Case) Has(l string) bool { return c.labels[l] > 0 }

// Count is how often the event occurred.
func (c *Case) Count(l string) int { return c.labels[l] }

// Nontrivial marks the case.
func (c *Case) Nontrivial() { c.nontrivial = true }

// Cleanup removes the scratch directory; to be deferred right after Begin.
func (c *Case) Cleanup() {
	if c.dir != "" {
		os.RemoveAll(c.dir)
		c.dir = ""
	}
}

// End accounts for a case that ran to its end.
func (c *Case) End() {
	if c.done {
		return
	}
	c.done = true
	stats.mu.Lock()
	defer stats.mu.Unlock()
	if stats.frozen {
		return
	}
	stats.Evaluations++
	for l, n := range c.labels {
		stats.Labels[l] += n
		stats.Labels["cases_with:"+l]++
	}
	if c.nontrivial {
		h := fnv.New64a()
		for _, o := range c.Ops {
			io.WriteString(h, o)
			h.Write([]byte{0})
		}
		k := strconv.FormatUint(h.Sum64(), 16)
		stats.Hashes[k]++
		if stats.Hashes[k] == 1 && len(stats.Samples) < 3 {
			ops := c.Ops
			if len(ops) > 60 {
				ops = append(append([]string{}, ops[:60]...), fmt.Sprintf("... %d more", len(c.Ops)-60))
			}
			cut := make([]string, len(ops))
			for i, o := range ops {
				if len(o) > 400 {
					o = o[:400] + "..."
				}
				cut[i] = strings.ToValidUTF8(o, "?")
			}
			stats.Samples = append(stats.Samples, cut)
		}
	}
}

func tagged(tags string) bool {
	for _, t := range strings.Split(tags, ",") {
		if t == PID || t == "*" {
			return true
		}
	}
	return false
}

// Mine says whether one of the comma separated property ids is the one decided here.
func Mine(tags string) bool { return tagged(tags) }

// Fail reports that the property ids in tags are broken. It ends the case when
// the property decided here is among them, and otherwise only counts it.
func (c *Case) Fail(tags, format string, args ...any) {
	c.T.Helper()
	msg := fmt.Sprintf(format, args...)
	if c.Also != "" {
		tags += "," + c.Also
	}
	stats.mu.Lock()
	if !tagged(tags) {
		stats.Foreign[tags]++
		if len(stats.ForeignMsg) < 5 {
			stats.ForeignMsg = append(stats.ForeignMsg, tags+": "+msg)
		}
		stats.mu.Unlock()
		return
	}
	stats.frozen = true
	stats.mu.Unlock()
	if outPath != "" {
		b, _ := json.MarshalIndent(map[string]any{"property": PID, "message": msg, "ops": c.Ops}, "", " ")
		os.WriteFile(outPath+".viol", b, 0o644)
	}
	// the text is constant: the shrinker compares the messages of two runs
	c.T.Logf("%s: %s\n  history:\n    %s", PID, msg, strings.Join(c.Ops, "\n    "))
	c.T.Fatalf(violated+" %s", PID)
}

const violated = "PROPERTY-VIOLATED"

// Check is Fail unless ok.
func (c *Case) Check(ok bool, tags, format string, args ...any) {
	if !ok {
		c.T.Helper()
		c.Fail(tags, format, args...)
	}
}

// Outcome is how a guarded call ended.
type Outcome struct {
	Err      error
	Panic    string
	Deadlock string
}

// Broken says the call neither returned nor returned an error.
func (o Outcome) Broken() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Deadlock != "" {
		return "deadlock: " + o.Deadlock
	}
	return ""
}

// Guard runs f in its own goroutine. A panic is caught. If f does not finish it
// is a deadlock only when its goroutine is seen parked on a lock or a channel
// with nothing else of the code under test running; slowness never is.
func Guard(f func() error) Outcome {
	type res struct {
		err error
		pan string
		val any
	}
	ch := make(chan res, 1)
	idc := make(chan string, 1)
	go func() {
		idc <- goid()
		var r res
		defer func() {
			if p := recover(); p != nil {
				buf := make([]byte, 8192)
				n := runtime.Stack(buf, false)
				r.pan = fmt.Sprintf("%v\n%s", p, buf[:n])
				r.val = p
			}
			ch <- r
		}()
		r.err = f()
	}()
	id := <-idc
	tm := time.NewTimer(8 * time.Second)
	defer tm.Stop()
	seen := 0
	for {
		select {
		case r := <-ch:
			if strings.Contains(r.pan, violated) {
				panic(r.val) // a check inside f failed: that is no panic of the code
			}
			return Outcome{Err: r.err, Panic: r.pan}
		case <-tm.C:
			st, dump := goState(id)
			if strings.HasPrefix(st, "sync.") || strings.HasPrefix(st, "semacquire") || strings.HasPrefix(st, "chan ") || strings.HasPrefix(st, "select") {
				seen++
			} else {
				seen = 0
			}
			if seen >= 3 {
				return Outcome{Deadlock: st + "\n" + dump}
			}
			tm.Reset(2 * time.Second)
		}
	}
}

func goid() string {
	buf := make([]byte, 64)
	n := runtime.Stack(buf, false)
	s := strings.TrimPrefix(string(buf[:n]), "goroutine ")
	return s[:strings.IndexByte(s, ' ')]
}

func goState(id string) (string, string) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.HasPrefix(g, "goroutine "+id+" [") {
			s := g[strings.IndexByte(g, '[')+1:]
			return s[:strings.IndexByte(s, ']')], g
		}
	}
	return "", ""
}

// EnvInt reads a number from the environment.
func EnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// SortedKeys of a map.
func SortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Tree lists every path below root: directories as "dir", files by content hash.
func Tree(root string) map[string]string {
	out := map[string]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case fi.IsDir():
			out[rel] = "dir"
		case fi.Mode().IsRegular():
			out[rel] = HashFile(p)
		default:
			out[rel] = fi.Mode().String()
		}
		return nil
	})
	return out
}

// HashFile is a content hash, or the error.
func HashFile(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "unreadable"
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d:%x", len(b), h.Sum64())
}

// DiffTree describes how two trees differ.
func DiffTree(a, b map[string]string) string {
	var d []string
	for _, k := range SortedKeys(a) {
		if v, ok := b[k]; !ok {
			d = append(d, "-"+k)
		} else if v != a[k] {
			d = append(d, "~"+k)
		}
	}
	for _, k := range SortedKeys(b) {
		if _, ok := a[k]; !ok {
			d = append(d, "+"+k)
		}
	}
	return strings.Join(d, " ")
}

// Scratch returns a fresh directory outside any case.
func Scratch(t *testing.T) string {
	d, err := os.MkdirTemp(ScratchRoot, "s")
	if err != nil {
		Abort("scratch: %v", err)
	}
	return d
}

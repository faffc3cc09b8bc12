//go:build go1.25

package vd

import (
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C35: what ferryctl asks for, against a recorder in the daemon's place.

type asked struct {
	method, path string // the path with its segments separated by a NUL
	body         map[string]any
	raw          string
}

type recorder struct {
	mu    sync.Mutex
	reqs  []asked
	conns int
	fail  string
	srv   *http.Server
	sock  string
	reply map[string]any
	raw   string // answered as it is, with this code (-1: no answer), if a code is set
	code  int
}

type countListener struct {
	net.Listener
	r *recorder
}

func (l countListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err == nil {
		l.r.mu.Lock()
		l.r.conns++
		l.r.mu.Unlock()
	}
	return c, err
}

func newRecorder(sock string) *recorder {
	r := &recorder{sock: sock}
	l, err := net.Listen("unix", sock)
	if err != nil {
		vh.Abort("%v", err)
	}
	os.Chmod(sock, 0o777)
	r.srv = &http.Server{Handler: http.HandlerFunc(r.serve)}
	go r.srv.Serve(countListener{l, r})
	return r
}

func (r *recorder) serve(w http.ResponseWriter, q *http.Request) {
	b, _ := io.ReadAll(q.Body)
	a := asked{method: q.Method, raw: string(b)}
	var segs []string
	for _, s := range strings.Split(strings.TrimLeft(q.URL.EscapedPath(), "/"), "/") {
		u, err := url.PathUnescape(s)
		if err != nil {
			u = "?" + s
		}
		segs = append(segs, u)
	}
	a.path = strings.Join(segs, "\x00")
	if q.URL.RawQuery != "" {
		a.path += "?" + q.URL.RawQuery
	}
	if len(b) > 0 {
		d := json.NewDecoder(strings.NewReader(string(b)))
		d.UseNumber()
		d.Decode(&a.body)
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	r.reqs = append(r.reqs, a)
	if r.fail != "" {
		out, _ := jsonResponse(r.fail)
		w.WriteHeader(http.StatusBadRequest)
		w.Write(out)
		return
	}
	if r.code != 0 {
		if r.code < 0 {
			panic(http.ErrAbortHandler)
		}
		w.WriteHeader(r.code)
		w.Write([]byte(r.raw))
		return
	}
	if len(segs) > 3 && segs[2] == "list" || len(segs) == 3 && segs[2] == "status" {
		json.NewEncoder(w).Encode(r.reply)
	}
}

func (r *recorder) reset(fail string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.reqs, r.conns, r.fail = nil, 0, fail
}

func (r *recorder) seen() ([]asked, int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]asked{}, r.reqs...), r.conns
}

func (a asked) String() string {
	return fmt.Sprintf("%s %q %s", a.method, strings.ReplaceAll(a.path, "\x00", "/"), short(a.raw))
}

// field reads a value of a body by the name the daemon knows.
func (a asked) field(k string) string {
	v, ok := a.body[k]
	if !ok {
		return "missing"
	}
	switch x := v.(type) {
	case string:
		return "s:" + x
	case json.Number:
		return "n:" + x.String()
	case bool:
		return fmt.Sprintf("b:%v", x)
	case nil:
		return "null"
	}
	return fmt.Sprintf("?%v", v)
}

func (a asked) strings(k string) []string {
	l, _ := a.body[k].([]any)
	var out []string
	for _, v := range l {
		s, _ := v.(string)
		out = append(out, s)
	}
	return out
}

type call struct {
	args   []string
	method string
	path   []string
	fields map[string]string
	refuse bool // must not contact the daemon
	free   bool // whether it may is left open
}

// argument makes a command line argument; no NUL can be part of one.
func argument(t *rapid.T, what string) string {
	s := rapid.OneOf(rapid.SampledFrom(oddNames), rapid.SampledFrom([]string{"unstable", "shannon", "nano", "x"}), rapid.StringN(1, 10, -1), rapid.SampledFrom(slashNames[3:])).Draw(t, what)
	s = strings.ReplaceAll(s, "\x00", "0")
	if s == "" {
		s = "e"
	}
	return s
}

var numbers = []string{"0", "-1", "-3", "x", "", "1.5", "1e3", "99999999999999999999", "2147483648", "0x10", "1 ", " 1", "1_000", "٣", "--", "+", "1a"}

// number gives an argument with its value, and whether it is one the command takes.
func number(t *rapid.T) (string, int64, bool) {
	if rapid.IntRange(0, 2).Draw(t, "oddnumber") == 2 {
		return rapid.SampledFrom(numbers).Draw(t, "number"), 0, false
	}
	n := rapid.OneOf(rapid.Int64Range(1, 50), rapid.SampledFrom([]int64{1, 2, 1<<31 - 1})).Draw(t, "n")
	s := strconv.FormatInt(n, 10)
	switch rapid.IntRange(0, 9).Draw(t, "form") {
	case 0:
		s = "00" + s
	case 1:
		s = "+" + s
	}
	return s, n, true
}

func aCall(t *rapid.T) call {
	kind := rapid.SampledFrom([]string{"create", "remove", "delta", "index", "clone", "clone", "pull", "removeSource", "removeSource", "copySource", "copySource", "copySource", "trim", "trim", "obsolete", "resetf", "resetc", "repos", "pool", "status"}).Draw(t, "kind")
	wrong := rapid.IntRange(0, 4).Draw(t, "wrong") == 4
	c := call{fields: map[string]string{}}
	var words, pos, flags []string
	arg := func(k string) string {
		s := argument(t, k)
		pos = append(pos, s)
		return s
	}
	one := func(method string, path ...string) { c.method, c.path = method, append([]string{"api", "v1"}, path...) }
	switch kind {
	case "create":
		words = []string{"create-repo"}
		one("GET", "create", "repo", arg("repo"))
	case "remove":
		words = []string{"remove", "repo"}
		one("GET", "remove", "repo", arg("repo"))
	case "delta":
		words = []string{"delta"}
		one("GET", "delta", "repo", arg("repo"))
	case "index":
		words = []string{"index"}
		one("GET", "index", "repo", arg("repo"))
	case "obsolete":
		words = []string{"trim", "obsolete"}
		one("GET", "trim", "obsoletes", arg("repo"))
	case "clone":
		words = []string{"clone"}
		one("POST", "clone", arg("repo"))
		c.fields["cloneName"] = "s:" + arg("clone")
		f := rapid.Bool().Draw(t, "full")
		if f {
			flags = append(flags, rapid.SampledFrom([]string{"-f", "--full", "--full=true"}).Draw(t, "flag"))
		}
		c.fields["copyAll"] = fmt.Sprintf("b:%v", f)
	case "pull":
		words = []string{"pull"}
		src := arg("source")
		one("POST", "pull", arg("target"))
		c.fields["source"] = "s:" + src
	case "removeSource":
		words = []string{"remove", "source"}
		one("POST", "remove", "source", arg("repo"))
		c.fields["source"] = "s:" + arg("source")
		c.fields["relno"] = "n:-1"
		if rapid.Bool().Draw(t, "release") {
			s, n, ok := number(t)
			pos = append(pos, s)
			c.fields["relno"] = fmt.Sprintf("n:%d", n)
			c.refuse = !ok
			wrong = false
		}
	case "copySource":
		words = []string{"copy", "source"}
		one("POST", "copy", "source", arg("from"))
		c.fields["target"] = "s:" + arg("to")
		c.fields["source"] = "s:" + arg("source")
		c.fields["relno"] = "n:-1"
		if rapid.Bool().Draw(t, "release") {
			s, n, ok := number(t)
			pos = append(pos, s)
			c.fields["relno"] = fmt.Sprintf("n:%d", n)
			c.refuse = !ok
			wrong = false
		}
		f := rapid.Bool().Draw(t, "skip")
		if f {
			flags = append(flags, rapid.SampledFrom([]string{"-x", "--skip-index", "--skip-index=true"}).Draw(t, "flag"))
		}
		c.fields["skipIndex"] = fmt.Sprintf("b:%v", f)
	case "trim":
		words = []string{"trim", "packages"}
		one("POST", "trim", "packages", arg("repo"))
		s, n, ok := number(t)
		pos = append(pos, s)
		c.fields["maxPackages"] = fmt.Sprintf("n:%d", n)
		c.refuse = !ok
		wrong = wrong && ok
	case "resetf":
		words = []string{"reset", "failed"}
		one("GET", "reset", "failed")
	case "resetc":
		words = []string{"reset", "completed"}
		one("GET", "reset", "completed")
	case "repos":
		words = []string{"list", "repos"}
		one("GET", "list", "repos")
	case "pool":
		words = []string{"list", "pool"}
		one("GET", "list", "pool")
	case "status":
		words = []string{"status"}
		one("GET", "status")
		if rapid.Bool().Draw(t, "all") {
			flags = append(flags, "-a")
		}
	}
	if wrong {
		// more or fewer arguments than the command takes
		switch {
		case kind == "removeSource":
			pos = pos[:1]
		case len(pos) > 0 && rapid.Bool().Draw(t, "fewer"):
			pos = pos[:len(pos)-1]
		default:
			pos = append(pos, argument(t, "extra"))
			if kind == "copySource" {
				pos = append(pos, argument(t, "extra2"))
			}
		}
		if kind == "copySource" && len(pos) == 4 {
			pos = append(pos, "x")
		}
		c.refuse = true
	}
	c.args = append([]string{}, words...)
	// the flags come before or after the words, arguments after a "--"
	c.args = append(c.args, flags...)
	c.args = append(append(c.args, "--"), pos...)
	if rapid.IntRange(0, 3).Draw(t, "plain") == 0 && plain(pos) {
		c.args = append(append(append([]string{}, words...), pos...), flags...)
	}
	return c
}

func plain(args []string) bool {
	for _, a := range args {
		if strings.HasPrefix(a, "-") {
			return false
		}
	}
	return true
}

// TestCommands runs the commands that pass on their arguments.
func TestCommands(t *testing.T) {
	vh.SetRule("3-8 runs of the built ferryctl with every command but import, with right and wrong numbers of arguments, unusual names, numbers of any form, and flags, against a recorder; some are answered with an error, which has to be printed. Non-trivial: a name with a character special in an address, a number or a flag is passed, or the arguments are wrong.")
	dir := vh.Scratch(t)
	os.Chmod(dir, 0o755)
	vh.Unprivileged()
	rec := newRecorder(filepath.Join(dir, "s"))
	rec.reply = map[string]any{}
	defer rec.srv.Close()
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		for i, n := 0, rapid.IntRange(3, 8).Draw(t, "runs"); i < n; i++ {
			k := aCall(t)
			fail := ""
			if rapid.IntRange(0, 5).Draw(t, "fails") == 4 {
				fail = "no such thing"
			}
			c.Op("ferryctl %q (answered with error %q)", k.args, fail)
			rec.reset(fail)
			args := append([]string{"-s", rec.sock}, k.args...)
			if rapid.Bool().Draw(t, "socklast") && plain(k.args) {
				args = append(append([]string{}, k.args...), "--socket="+rec.sock)
			}
			p := vh.Run("VERIF_FERRYCTL", dir, args...)
			reqs, conns := rec.seen()
			name := strings.Join(k.args[:min(2, len(k.args))], " ")
			if k.refuse {
				c.Label("wrong arguments")
				c.Nontrivial()
				c.Check(conns == 0 && len(reqs) == 0, "C35", "ferryctl %q: the arguments are wrong, and it contacts the daemon: %v", k.args, reqs)
				c.Check(strings.TrimSpace(p.Output()) != "", "C35", "ferryctl %q: the arguments are wrong, and it says nothing", k.args)
				continue
			}
			c.Label("run")
			if strings.ContainsAny(strings.Join(k.path, "")+fmt.Sprint(k.fields), "%?#+;&<>\"\\\n/") || len(k.fields) > 1 {
				c.Nontrivial()
			}
			if len(reqs) != 1 {
				c.Fail("C35", "ferryctl %q (%s) sends %d requests: %v; it prints %s", k.args, name, len(reqs), reqs, short(p.Output()))
				continue
			}
			q := reqs[0]
			want := strings.Join(k.path, "\x00")
			c.Check(q.method == k.method && q.path == want, "C35", "ferryctl %q asks %s %q, expected %s %q", k.args, q.method, q.path, k.method, want)
			for _, f := range vh.SortedKeys(k.fields) {
				c.Check(q.field(f) == k.fields[f], "C35", "ferryctl %q asks with %s = %q, expected %q", k.args, f, q.field(f), k.fields[f])
			}
			if fail != "" {
				c.Label("error answered")
				c.Check(strings.Contains(p.Output(), fail), "C35", "ferryctl %q: the daemon answers %q, it prints %q", k.args, fail, short(p.Output()))
			}
		}
		c.End()
	})
}

var pkgFiles = []string{"nano-5.5-%d-1-x86_64.eopkg", "lib x-1-%d-1-x86_64.eopkg", "ä-1-%d-1-x86_64.eopkg", "x&y<z>-1-%d-1-x86_64.eopkg", "-n-1-%d-1-x86_64.eopkg", ".hid-1-%d-1-x86_64.eopkg", "%%41-1-%d-1-x86_64.eopkg", "x.delta-1-%d-1-x86_64.eopkg", "new\nline-%d-1-x86_64.eopkg"}

var otherFiles = []string{"nano-1-%d-1-x86_64.delta.eopkg", "nano-%d-3-1-x86_64.delta.eopkg", "nano-%d-1-x86_64.eopkg.sha1sum", "nano-%d-1-x86_64.eopkg.part", "nano-%d.tram", "%dREADME", "eopkg-%d.xml", "x86_64-%d", "eopkg%d", "nano-%d-1-x86_64.eopkg~", "pspec%d.yml"}

type treeGen struct {
	t    *rapid.T
	n    int
	all  map[string]bool // every path: true for a directory
	pkgs map[string]bool

	far    string          // where symlinks lead to
	links  map[string]bool // symlinks to directories
	broken map[string]bool // what cannot be read
}

func (g *treeGen) grow(dir string, depth int) {
	g.all[dir] = true
	for i, k := 0, rapid.IntRange(0, 4).Draw(g.t, "entries"); i < k; i++ {
		g.n++
		what := rapid.IntRange(0, 9).Draw(g.t, "entry")
		odd := rapid.IntRange(0, 19).Draw(g.t, "odd")
		switch {
		case odd == 17: // a package that is a symlink to something named differently
			p := filepath.Join(dir, fmt.Sprintf(rapid.SampledFrom(pkgFiles).Draw(g.t, "pkg"), g.n))
			t := filepath.Join(g.far, fmt.Sprint("blob", g.n))
			must(os.WriteFile(t, []byte("x"), 0o644))
			must(os.Symlink(t, p))
			g.all[p], g.pkgs[p] = false, true
		case odd == 18: // a directory that is a symlink
			p, t := filepath.Join(dir, fmt.Sprint("link", g.n)), filepath.Join(g.far, fmt.Sprint("dir", g.n))
			must(os.Mkdir(t, 0o755))
			must(os.Symlink(t, p))
			g.all[p], g.links[p] = true, true
			for _, n := range []string{"nano-1-1-1-x86_64.eopkg", "README"} {
				must(os.WriteFile(filepath.Join(t, n), []byte("x"), 0o644))
				g.all[filepath.Join(p, n)] = false
			}
			g.pkgs[filepath.Join(p, "nano-1-1-1-x86_64.eopkg")] = true
		case odd == 19 && what == 5: // nobody knows what is there
			p := filepath.Join(dir, fmt.Sprintf(rapid.SampledFrom(pkgFiles).Draw(g.t, "pkg"), g.n))
			switch rapid.IntRange(0, 2).Draw(g.t, "how") {
			case 0:
				must(os.Symlink(filepath.Join(g.far, "nothing"), p))
			case 1:
				must(os.WriteFile(p, []byte("x"), 0))
			case 2:
				p = filepath.Join(dir, fmt.Sprint("closed", g.n))
				must(os.Mkdir(p, 0))
			}
			g.broken[p] = true
		case what < 4:
			p := filepath.Join(dir, fmt.Sprintf(rapid.SampledFrom(pkgFiles).Draw(g.t, "pkg"), g.n))
			must(os.WriteFile(p, []byte("x"), 0o644))
			g.all[p], g.pkgs[p] = false, true
		case what < 7:
			p := filepath.Join(dir, fmt.Sprintf(rapid.SampledFrom(otherFiles).Draw(g.t, "other"), g.n))
			must(os.WriteFile(p, []byte("x"), 0o644))
			g.all[p] = false
		default:
			if depth == 0 {
				continue
			}
			p := filepath.Join(dir, fmt.Sprintf(rapid.SampledFrom([]string{"d%d", "sub dir %d", "ä%d", ".hidden%d", "d%d-x86_64.eopkg", "d%d.eopkg", "-d%d", "d%d.delta.eopkg"}).Draw(g.t, "dir"), g.n))
			must(os.Mkdir(p, 0o755))
			g.grow(p, depth-1)
		}
	}
}

// below lists the packages a path stands for.
func (g *treeGen) below(p string) []string {
	var out []string
	for k := range g.pkgs {
		if k == p || strings.HasPrefix(k, p+"/") {
			out = append(out, k)
		}
	}
	return out
}

// blocked says that something at or below a path cannot be read.
func (g *treeGen) blocked(p string) bool {
	for k := range g.broken {
		if k == p || strings.HasPrefix(k, p+"/") {
			return true
		}
	}
	return false
}

// spell gives another way to write an absolute path, from the given directory.
func spell(t *rapid.T, cwd, p string) string {
	rel, err := filepath.Rel(cwd, p)
	must(err)
	switch rapid.IntRange(0, 5).Draw(t, "spelling") {
	case 0:
		return p
	case 1:
		return rel
	case 2:
		return "./" + rel
	case 3:
		return filepath.Dir(p) + "/./" + filepath.Base(p)
	case 4:
		return filepath.Dir(p) + "/../" + filepath.Base(filepath.Dir(p)) + "//" + filepath.Base(p)
	}
	return rel
}

// TestImport runs the import command over generated trees.
func TestImport(t *testing.T) {
	vh.SetRule("the built ferryctl imports 1-5 generated paths, spelled in different ways from different directories, of a generated tree of packages, delta packages, other files and nested directories with unusual names; some are symlinks, and sometimes one of the paths does not exist or something below it cannot be read. What it asks for is compared with the packages among and below the paths. Non-trivial: a directory with a package, and a file that is none, are among what it is pointed at.")
	dir := vh.Scratch(t)
	os.Chmod(dir, 0o755)
	vh.Unprivileged()
	rec := newRecorder(filepath.Join(dir, "s"))
	defer rec.srv.Close()
	rapid.Check(t, func(t *rapid.T) {
		c := vh.Begin(t)
		defer c.Cleanup()
		os.Chmod(c.Dir(), 0o755)
		root := filepath.Join(c.Dir(), "tree")
		must(os.Mkdir(root, 0o755))
		g := &treeGen{t: t, all: map[string]bool{}, pkgs: map[string]bool{}, links: map[string]bool{}, broken: map[string]bool{}, far: filepath.Join(c.Dir(), "far")}
		must(os.Mkdir(g.far, 0o755))
		g.grow(root, 3)
		var dirs []string
		for _, p := range vh.SortedKeys(g.all) {
			if g.all[p] && !g.links[p] {
				dirs = append(dirs, p)
			}
		}
		cwd := rapid.SampledFrom(dirs).Draw(t, "cwd")
		repo := argument(t, "repo")
		args := []string{"-s", rec.sock, "import", "--", repo}
		var want []string
		sawDir, sawOther, missing := false, false, false
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "paths"); i < n; i++ {
			p := rapid.SampledFrom(vh.SortedKeys(g.all)).Draw(t, "path")
			if rapid.IntRange(0, 24).Draw(t, "missing") == 20 {
				p = filepath.Join(root, "missing-1-1-1-x86_64.eopkg")
				missing = true
			}
			if g.blocked(p) {
				missing = true
				c.Label("something cannot be read")
			}
			b := g.below(p)
			want = append(want, b...)
			if g.all[p] && len(b) > 0 {
				sawDir = true
				for k, d := range g.all {
					if !d && !g.pkgs[k] && strings.HasPrefix(k, p+"/") {
						sawOther = true
					}
				}
			}
			args = append(args, spell(t, cwd, p))
		}
		for _, p := range vh.SortedKeys(g.all) {
			rel, _ := filepath.Rel(c.Dir(), p)
			c.Op("%s", rel)
		}
		rel, _ := filepath.Rel(c.Dir(), cwd)
		c.Op("in %s: ferryctl import %q", rel, strings.ReplaceAll(fmt.Sprint(args[4:]), c.Dir(), "..."))
		fail := ""
		if rapid.IntRange(0, 9).Draw(t, "fails") == 4 {
			fail = "no such thing"
		}
		rec.reset(fail)
		p := vh.Run("VERIF_FERRYCTL", cwd, args...)
		reqs, _ := rec.seen()
		var got []string
		for _, q := range reqs {
			c.Check(q.method == "POST" && q.path == "api\x00v1\x00import\x00"+repo, "C35", "import into %q asks %s", repo, q)
			got = append(got, q.strings("path")...)
		}
		if missing {
			c.Label("a path does not exist")
			c.Check(len(reqs) == 0, "C35", "one of the paths does not exist or cannot be read, and %v is asked for", reqs)
			c.Check(strings.TrimSpace(p.Output()) != "", "C35", "one of the paths does not exist or cannot be read, and nothing is said")
		} else {
			sort.Strings(want)
			sort.Strings(got)
			c.Check(len(reqs) <= 1 && (len(reqs) == 1 || len(want) == 0), "C35", "the import sends %d requests: %v; it prints %s", len(reqs), reqs, short(p.Output()))
			c.Check(strings.Join(want, "\x00") == strings.Join(got, "\x00"), "C35", "the import asks for %q, it was pointed at %q", got, want)
			if fail != "" && len(reqs) > 0 {
				c.Check(strings.Contains(p.Output(), fail), "C35", "the daemon answers %q, the import prints %q", fail, short(p.Output()))
			}
			if len(want) > 0 {
				c.Label("packages asked for")
			}
			if sawDir && sawOther {
				c.Nontrivial()
				c.Label("directory with packages and other files")
			}
		}
		c.End()
	})
	// too few arguments
	for _, a := range [][]string{{"import"}, {"import", "repo"}} {
		c := vh.Begin(t)
		c.Op("ferryctl %q", a)
		rec.reset("")
		p := vh.Run("VERIF_FERRYCTL", dir, append([]string{"-s", rec.sock}, a...)...)
		_, conns := rec.seen()
		c.Check(conns == 0 && strings.TrimSpace(p.Output()) != "", "C35", "ferryctl %q contacts the daemon or says nothing", a)
		c.End()
	}
}

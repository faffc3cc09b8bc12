_n={}; exec(open('/tmp/plant/bugs6.py').read(),_n)
bug=_n['bug']; _n['BUGS'].clear(); BUGS=_n['BUGS']; JH=_n['JH']; FH=_n['FH']
CSH=open('/tmp/plant/demo.sh').read()
PSH=CSH.replace('@PKG@','src/ferryd/core').replace('''print(json.dumps(''','''ov = {}
for f in os.listdir(f"{r}/{pkg}"):
    if f.endswith(".go") and not f.endswith("_test.go"):
        s = open(f"{r}/{pkg}/{f}").read()
        if '"/etc/ferryd"' in s:
            # the lists are read from a scratch directory
            p = os.environ["W"] + "/" + f
            open(p, "w").write(s.replace('"/etc/ferryd"', json.dumps(os.environ["W"] + "/etc")))
            ov[f"{r}/{pkg}/{f}"] = p
ov.update(''').replace('''endswith("_test.go")}}))''','''endswith("_test.go")})
print(json.dumps({"Replace": ov}))''').replace('{"Replace": {f"{r}/{pkg}/zz','{f"{r}/{pkg}/zz').replace('exit 3\n','exit 3\nexport W\n',1)
PH='''package core
import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"
)
var _ = fmt.Sprint
var _ = errors.New
var _ = filepath.Join

type demoNet func(q *http.Request, body string) (int, string)

func (n demoNet) RoundTrip(q *http.Request) (*http.Response, error) {
	b, _ := io.ReadAll(q.Body)
	c, s := n(q, string(b))
	return &http.Response{StatusCode: c, Status: http.StatusText(c), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Body: io.NopCloser(strings.NewReader(s)), Request: q}, nil
}

const demoOK = `{"success":true,"errors":[],"messages":[],"result":{"id":"x"}}`

// demoCDN configures the network and the list of a repository.
func demoCDN(t *testing.T, repo, list string, f demoNet) string {
	http.DefaultTransport = f
	t.Setenv("CLOUDFLARE_API_TOKEN", "token")
	t.Setenv("CLOUDFLARE_ZONE_ID", "zone")
	d := os.Getenv("W") + "/etc"
	demoMust(t, os.MkdirAll(d, 0755))
	demoMust(t, os.WriteFile(d+"/"+repo, []byte(list), 0644))
	return d
}
'''
PC='src/ferryd/core/purge_cloudflare.go'; X='src/ferryd/core/repo_index.go'; SV='src/ferryd/server.go'; W='src/ferryd/jobs/worker.go'; PR='src/ferryd/jobs/processor.go'; ST='src/ferryctl/cmd/status.go'
def p(id,edits,needs,breaks,demo): bug(id,'C40',edits,needs,breaks,PH+demo,sh=PSH,pkg='src/ferryd/core')
MV='''	for k, v := range mapping {
		if errAbort = os.Rename(k, v); errAbort != nil {
			return errAbort
		}
	}

	errAbort = purgeCloudflare(r.ID)
	if errAbort != nil {
		return errAbort
	}

	return nil
'''
p('c40-dropped-early',[(X,MV,'''	// Drop the cached copies while the new files are moved into place
	if errAbort = purgeCloudflare(r.ID); errAbort != nil {
		return errAbort
	}

	for k, v := range mapping {
		if errAbort = os.Rename(k, v); errAbort != nil {
			return errAbort
		}
	}

	return nil
''')],'a client fetches the index between the request to the network and the rename of the new index','the network may cache the old index again for good',
'''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m := demoManager(t, d)
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	seen := ""
	demoCDN(t, "a", "https://x/eopkg-index.xml\\n", func(q *http.Request, b string) (int, string) {
		c, _ := os.ReadFile(d + "/repo/a/eopkg-index.xml")
		seen = string(c)
		return 200, demoOK
	})
	demoMust(t, m.AddPackages("a", []string{demoPkg(t, t.TempDir(), "foo", "foo", 1)}, false))
	if !strings.Contains(seen, "foo") {
		t.Fatal("the old index was there when the network was told: ", seen)
	}
}
''')
p('c40-checksum-address',[(PC,'''	api, err := cloudflare.NewWithAPIToken(apiKey)
''','''	// The addresses are sorted and unique in the request
	slices.Sort(files)
	files = slices.CompactFunc(files, func(a, b string) bool {
		return strings.TrimSuffix(a, ".sha1sum") == strings.TrimSuffix(b, ".sha1sum")
	})

	api, err := cloudflare.NewWithAPIToken(apiKey)
''')],'the list has an address and that of its checksum file','the checksum file stays cached and does not match the new index',
'''
func TestDemo(t *testing.T) {
	m := demoManager(t, t.TempDir())
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	got := ""
	demoCDN(t, "a", "https://x/i.xz\\nhttps://x/i.xz.sha1sum\\n", func(q *http.Request, b string) (int, string) {
		got += b
		return 200, demoOK
	})
	demoMust(t, m.Index("a"))
	if !strings.Contains(got, `"https://x/i.xz"`) || !strings.Contains(got, `"https://x/i.xz.sha1sum"`) {
		t.Fatal(got)
	}
}
''')
p('c40-blank-lines-inside',[(PC,'''	files := slices.DeleteFunc(strings.Split(string(content), "\\n"), func(e string) bool {
		return e == ""
	})
''','''	files := slices.DeleteFunc(strings.SplitAfter(strings.TrimSpace(string(content)), "\\n\\n"), func(e string) bool {
		return e == ""
	})
	for i := range files {
		files[i] = strings.TrimSpace(files[i])
	}
	if len(files) == 1 {
		files = strings.Split(files[0], "\\n")
	}
''')],'the list of addresses has an empty line in the middle','addresses of one paragraph are sent as one',
'''
func TestDemo(t *testing.T) {
	m := demoManager(t, t.TempDir())
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	got := ""
	demoCDN(t, "a", "https://x/1\\nhttps://x/2\\n\\nhttps://x/3\\n", func(q *http.Request, b string) (int, string) {
		got += b
		return 200, demoOK
	})
	demoMust(t, m.Index("a"))
	for _, u := range []string{`"https://x/1"`, `"https://x/2"`, `"https://x/3"`} {
		if !strings.Contains(got, u) {
			t.Fatal(got)
		}
	}
}
''')
p('c40-unreadable-list',[(PC,'''	content, err := os.ReadFile(fileList)
	if err != nil {
		return err
	}
''','''	content, err := os.ReadFile(fileList)
	if err != nil {
		if len(content) == 0 {
			return nil
		}
		return err
	}
''')],'the list of addresses cannot be read','the operation succeeds although nothing was dropped from the network',
'''
func TestDemo(t *testing.T) {
	m := demoManager(t, t.TempDir())
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	e := demoCDN(t, "b", "x\\n", func(q *http.Request, b string) (int, string) { return 200, demoOK })
	demoMust(t, os.Mkdir(e+"/a", 0755))
	if err := m.Index("a"); err == nil {
		t.Fatal("no error")
	}
}
''')
p('c40-refusal-with-200',[(PC,'''	if result.Success {
		return nil
	}
''','''	if result.Success || result.Result.ID != "" {
		return nil
	}
''')],'the network answers a request it does not carry out with its zone','the refusal is taken for success',
'''
func TestDemo(t *testing.T) {
	m := demoManager(t, t.TempDir())
	defer m.Close()
	demoMust(t, m.CreateRepo("a"))
	demoCDN(t, "a", "https://x/1\\n", func(q *http.Request, b string) (int, string) {
		return 200, `{"success":false,"errors":[{"code":1,"message":"no"}],"messages":[],"result":{"id":"zone"}}`
	})
	if err := m.Index("a"); err == nil {
		t.Fatal("no error")
	}
}
''')
# C41: python drives the real daemon
SSH='''#!/bin/bash
# Runs the demonstration against the daemon of the tree in the working directory.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
W=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
go build -o "$W/ferryd" ./src/ferryd || exit 3
mkdir "$W/base"
timeout 120 python3 "$D/demo.py" "$W"
'''
PY='''import sys, os, socket, subprocess, time, stat, signal

W = sys.argv[1]
OWN = W + "/own.sock"


def daemon(fds=(), umask=0o22):
    """Starts a daemon, with sockets handed over or not."""
    cmd = "exec %s/ferryd -d %s/base -s %s" % (W, W, OWN)
    env = dict(os.environ)
    env.pop("LISTEN_FDS", None)
    pre = lambda: os.umask(umask)
    if fds:
        env["LISTEN_FDS"] = str(len(fds))
        cmd = "export LISTEN_PID=$$; " + cmd

        def pre():
            os.umask(umask)
            # out of the way first
            t = [os.dup2(f, 20 + i) for i, f in enumerate(fds)]
            for i, f in enumerate(t):
                os.dup2(f, 3 + i, inheritable=True)

    return subprocess.Popen(["bash", "-c", cmd], env=env, preexec_fn=pre, close_fds=False,
                            stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)


def ask(path, p):
    """Whether the daemon answers on a socket."""
    end = time.time() + 30
    while time.time() < end and p.poll() is None:
        try:
            s = socket.socket(socket.AF_UNIX)
            s.settimeout(20)
            s.connect(path)
            s.sendall(b"GET /api/v1/status HTTP/1.0\\r\\n\\r\\n")
            return s.recv(100).startswith(b"HTTP/1.0 200")
        except (FileNotFoundError, ConnectionError):
            time.sleep(0.05)
    return False


def stop(p):
    p.send_signal(signal.SIGTERM)
    p.wait(60)


def given(path):
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(8)
    return s


def fail(m):
    print(m)
    sys.exit(1)


'''
def s(id,edits,needs,breaks,py): bug(id,'C41',edits,needs,breaks,None,sh=SSH,files={'demo.py':PY+py},pkg='src/ferryd'); BUGS[id].pop('demo')
s('c41-any-number',[(SV,'''		if len(listeners) != 1 {''','''		if len(listeners) == 0 {''')],'the service manager hands over two sockets','the daemon serves only the first of them instead of ending',
'''a, b = given(W + "/a.sock"), given(W + "/b.sock")
p = daemon([a.fileno(), b.fileno()])
try:
    p.wait(20)
except subprocess.TimeoutExpired:
    p.kill()
    fail("it serves one of two sockets")
''')
s('c41-mode-if-closed',[(SV,'''		// Fatal if we cannot chmod the socket to be ours only
		if e = os.Chmod(s.socketPath, 0660); e != nil {
			return e
		}
''','''		// Fatal if we cannot chmod the socket so that our group may use it
		if st, e := os.Stat(s.socketPath); e == nil && st.Mode().Perm()&0060 != 0060 {
			if e = os.Chmod(s.socketPath, 0660); e != nil {
				return e
			}
		}
''')],'the daemon is started with an umask that takes nothing from the group, such as 0','everyone may use the socket',
'''p = daemon(umask=0)
if not ask(OWN, p):
    fail("no daemon")
m = stat.S_IMODE(os.stat(OWN).st_mode)
stop(p)
if m != 0o660:
    fail("mode %o" % m)
''')
s('c41-given-removed',[(SV,'''		systemdEnabled = true
''','''		systemdEnabled = listener.Addr().String() != s.socketPath
''')],'the service manager hands over a socket that is bound to the path the daemon is configured with','the daemon changes its mode and removes it when it ends',
'''g = given(OWN)
os.chmod(OWN, 0o600)
p = daemon([g.fileno()])
if not ask(OWN, p):
    fail("no daemon")
stop(p)
if not os.path.exists(OWN):
    fail("the socket of the service manager is gone")
''')
# C42
QH='''package jobs
import (
	"os"
	"path/filepath"
	"syscall"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

// demoWork starts a processor on a job that does not end before the returned
// function is called.
func demoWork(t *testing.T, d string) (*Processor, *core.Manager, func()) {
	m, err := core.NewManager(d)
	if err != nil {
		t.Fatal(err)
	}
	if err := m.CreateRepo("a"); err != nil {
		t.Fatal(err)
	}
	// Assets that are not there yet
	f := filepath.Join(d, core.AssetPathComponent, "a", "distribution.xml")
	os.MkdirAll(filepath.Dir(f), 0755)
	if err := syscall.Mkfifo(f, 0644); err != nil {
		t.Fatal(err)
	}
	s, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	p := NewProcessor(m, s, 2)
	s.PushSequentialJob(NewIndexRepoJob("a"))
	p.Begin()
	var w *os.File
	for i := 0; w == nil; i++ {
		// Opens once the job reads
		if w, err = os.OpenFile(f, os.O_WRONLY|syscall.O_NONBLOCK, 0); err != nil && i > 300 {
			t.Fatal("the job never started")
		}
		time.Sleep(50 * time.Millisecond)
	}
	return p, m, func() {
		os.Remove(f)
		w.WriteString("<PISI><SourceName>Solus</SourceName></PISI>")
		w.Close()
	}
}
'''
bug('c42-waits-ten-seconds','C42',[(PR,'''	j.wg.Wait()
''','''	// A job that hangs mustn't keep us forever
	done := make(chan struct{})
	go func() {
		j.wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Second * 3):
	}
'''),(PR,'''	"sync"
''','''	"sync"
	"time"
''')],'the daemon is told to end while a job runs that takes another three seconds','the daemon ends in the middle of the job',
QH+'''
func TestDemo(t *testing.T) {
	p, _, done := demoWork(t, t.TempDir())
	closed := make(chan bool)
	go func() { p.Close(); close(closed) }()
	select {
	case <-closed:
		t.Error("closed in the middle of a job")
	case <-time.After(8 * time.Second):
	}
	done()
	<-closed
}
''',pkg='src/ferryd/jobs')
bug('c42-result-dropped',"C42",[(W,'''			// Mark the job as dealt with
			err = w.reaper(job)
''','''			// Don't bother the store when we're going home
			select {
			case <-w.exit:
				return
			default:
			}

			// Mark the job as dealt with
			err = w.reaper(job)
''')],'the daemon is told to end while a job runs','the job is not remembered as done and is carried out again by the next daemon',
QH+'''
func TestDemo(t *testing.T) {
	p, _, done := demoWork(t, t.TempDir())
	closed := make(chan bool)
	go func() { p.Close(); close(closed) }()
	time.Sleep(300 * time.Millisecond)
	done()
	<-closed
	if a, err := p.store.ActiveJobs(); err != nil || len(a) != 0 {
		t.Fatal(len(a), err)
	}
}
''',pkg='src/ferryd/jobs')
CL='''	s.StopWatching()
	s.jproc.Close()
	s.store.Close()
	s.manager.Close()
'''
SH42=FH+'''
func demoBusy(t *testing.T) (*Server, string, func()) {
	s, d := demoServer(t)
	socketPath = d + "/sock"
	if err := s.manager.CreateRepo("a"); err != nil {
		t.Fatal(err)
	}
	f := filepath.Join(d, core.AssetPathComponent, "a", "distribution.xml")
	os.MkdirAll(filepath.Dir(f), 0755)
	if err := syscall.Mkfifo(f, 0644); err != nil {
		t.Fatal(err)
	}
	s.manager.Close()
	s.store.Close()
	if err := s.Bind(); err != nil {
		t.Fatal(err)
	}
	s.jproc.PushJob(jobs.NewIndexRepoJob("a"))
	go s.Serve()
	var w *os.File
	for i := 0; w == nil; i++ {
		// Opens once the job reads
		var err error
		if w, err = os.OpenFile(f, os.O_WRONLY|syscall.O_NONBLOCK, 0); err != nil && i > 300 {
			t.Fatal("the job never started")
		}
		time.Sleep(50 * time.Millisecond)
	}
	return s, d, func() {
		os.Remove(f)
		w.WriteString("<PISI><SourceName>Solus</SourceName></PISI>")
		w.Close()
	}
}

func TestDemo(t *testing.T) {
	s, d, done := demoBusy(t)
	closed := make(chan bool)
	go func() { s.Close(); close(closed) }()
	time.Sleep(500 * time.Millisecond)
	done()
	select {
	case <-closed:
	case <-time.After(30 * time.Second):
		t.Fatal("does not end")
	}
	st, err := jobs.NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	defer st.Close()
	a, err := st.ActiveJobs()
	if err != nil || len(a) != 0 {
		t.Fatal("left over: ", len(a), err)
	}
	c, err := st.CompletedJobs()
	if err != nil || len(c) != 1 {
		t.Fatal("completed: ", len(c), err)
	}
}
'''
SH42=SH42.replace('	"os"\n','	"os"\n	"path/filepath"\n	"syscall"\n',1)
bug('c42-store-first','C42',[(SV,CL,'''	s.StopWatching()
	// Nothing new is accepted from here on
	s.store.Close()
	s.jproc.Close()
	s.manager.Close()
''')],'the daemon is told to end while a job runs','its result cannot be remembered and the job is carried out again',SH42,pkg='src/ferryd')
bug('c42-manager-first','C42',[(SV,CL,'''	s.StopWatching()
	s.manager.Close()
	s.jproc.Close()
	s.store.Close()
''')],'the daemon is told to end while a job runs','the job finds the database closed and fails',SH42,pkg='src/ferryd')
bug('c42-sequential-not-waited','C42',[(PR,'''	j.wg.Add(j.njobs + 1)
''','''	j.wg.Add(len(j.workers))
'''),(W,'''	defer w.wg.Done()

''','''	idle := sync.OnceFunc(w.wg.Done)
	defer idle()

'''),(W,'''			// Got a job, now process it
			w.processJob(job)
''','''			// The short ones can be left to the next start
			if !w.sequential || job.Type == IndexRepo {
				idle()
			}

			// Got a job, now process it
			w.processJob(job)
''')],'the daemon is told to end while an index is generated','it ends without waiting for the job',SH42.replace('left over','left over'),pkg='src/ferryd')
# C39
TH='''package cmd
import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"testing"
	"time"

	"github.com/spf13/cobra"

	"github.com/getsolus/ferryd/src/libferry"
)
var _ = fmt.Sprint
var _ = strings.Contains
var _ time.Time
var _ libferry.Job

// demoShown is what a command prints about an answer.
func demoShown(t *testing.T, answer interface{}, f func(*cobra.Command, []string)) string {
	d, err := os.MkdirTemp("", "d")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(d)
	socketPath = d + "/s"
	l, err := net.Listen("unix", socketPath)
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	go http.Serve(l, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Type", "application/json")
		json.NewEncoder(w).Encode(answer)
	}))
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = w, w
	done := make(chan string)
	go func() {
		var b bytes.Buffer
		io.Copy(&b, r)
		done <- b.String()
	}()
	f(nil, nil)
	os.Stdout, os.Stderr = so, se
	w.Close()
	return <-done
}
'''
def c(id,edits,needs,breaks,demo): bug(id,'C39',edits,needs,breaks,TH+demo,pkg='src/ferryctl/cmd')
c('c39-sorted-when-long',[(ST,'''		sort.Sort(sort.Reverse(status.FailedJobs))
''','''		if len(status.FailedJobs) <= maxPrintJobs {
			sort.Sort(sort.Reverse(status.FailedJobs))
		}
''')],'more jobs failed than are shown','the oldest failures are shown instead of the latest',
'''
func TestDemo(t *testing.T) {
	var q libferry.StatusRequest
	for i := 0; i < 12; i++ {
		j := &libferry.Job{Description: fmt.Sprintf("job%02d", i), Failed: true, Error: "no"}
		j.Timing.Queued = time.Unix(int64(1000+i), 0)
		q.FailedJobs = append(q.FailedJobs, j)
	}
	if s := demoShown(t, q, getStatus); !strings.Contains(s, "job11") || strings.Contains(s, "job00") {
		t.Fatal(s)
	}
}
''')
c('c39-running-since',[(ST,'''		if j.Timing.Begin.IsZero() {
			runType''','''		if !j.Timing.Begin.After(j.Timing.Queued) {
			runType''')],'a job starts within the resolution of the clock of being queued, or the clock was set back','a running job is shown as queued',
'''
func TestDemo(t *testing.T) {
	var q libferry.StatusRequest
	j := &libferry.Job{Description: "job"}
	j.Timing.Queued = time.Unix(1000, 0)
	j.Timing.Begin = time.Unix(1000, 0)
	q.CurrentJobs = append(q.CurrentJobs, j)
	if s := demoShown(t, q, getStatus); !strings.Contains(s, "running") {
		t.Fatal(s)
	}
}
''')
c('c39-same-descriptions',[(ST,'''	i := 0

	for _, j := range js {
		if i >= maxPrintJobs && !allJobs {
			break
		}
		i++
		table.Append([]string{
			"failed",''','''	i := 0
	last := ""

	for _, j := range js {
		if i >= maxPrintJobs && !allJobs {
			break
		}
		// Only the latest of several attempts
		if j.Description == last && !allJobs {
			continue
		}
		last = j.Description
		i++
		table.Append([]string{
			"failed",''')],'the same operation failed several times in a row','only one of the failures is shown',
'''
func TestDemo(t *testing.T) {
	var q libferry.StatusRequest
	for i := 0; i < 2; i++ {
		j := &libferry.Job{Description: "job", Failed: true, Error: fmt.Sprintf("reason%d", i)}
		j.Timing.Queued = time.Unix(int64(1000+i), 0)
		q.FailedJobs = append(q.FailedJobs, j)
	}
	if s := demoShown(t, q, getStatus); !strings.Contains(s, "reason0") || !strings.Contains(s, "reason1") {
		t.Fatal(s)
	}
}
''')
c('c39-pool-compact',[('src/ferryctl/cmd/list_pool.go','''	for _, pool := range pools {
''','''	for i, pool := range pools {
		// Deltas come right after the package they lead to
		if i > 0 && pool.RefCount == pools[i-1].RefCount && strings.TrimSuffix(pool.ID, ".delta.eopkg") == strings.TrimSuffix(pools[i-1].ID, ".eopkg") {
			continue
		}
'''),('src/ferryctl/cmd/list_pool.go','''	"os"
''','''	"os"
	"strings"
''')],'a package has a name that ends in .delta after one of the same name without','it is missing from the listing of the pool',
'''
func TestDemo(t *testing.T) {
	var q libferry.PoolListingRequest
	q.Item = append(q.Item, libferry.PoolItem{ID: "a-1-1.eopkg", RefCount: 1}, libferry.PoolItem{ID: "a-1-1.delta.eopkg", RefCount: 1})
	if s := demoShown(t, q, listPool); !strings.Contains(s, "a-1-1.delta.eopkg") {
		t.Fatal(s)
	}
}
''')

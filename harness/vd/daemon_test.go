//go:build go1.25

// Package vd decides the properties of the programs themselves: ferryd and
// ferryctl are built from the tree, run, and talked to.
package vd

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/libferry"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

const blockRepo = "blocked"

var (
	blockOnce sync.Once
	blockDir  string
)

// blockedBase is a base directory whose first queued job never ends, as it
// indexes a repository with assets in a pipe nobody writes to: whatever is queued stays queued,
// and nothing that a request asks for is ever done.
func blockedBase(dir string) string {
	blockOnce.Do(func() {
		blockDir = filepath.Join(vh.ScratchRoot, "blocked")
		if err := os.Mkdir(blockDir, 0o755); err != nil {
			vh.Abort("%v", err)
		}
		m, err := core.NewManager(blockDir)
		if err != nil {
			vh.Abort("manager: %v", err)
		}
		if err := m.CreateRepo(blockRepo); err != nil {
			vh.Abort("create: %v", err)
		}
		m.Close()
		st, err := jobs.NewStore(blockDir)
		if err != nil {
			vh.Abort("store: %v", err)
		}
		if err := st.PushSequentialJob(jobs.NewIndexRepoJob(blockRepo)); err != nil {
			vh.Abort("push: %v", err)
		}
		st.Close()
		vh.Unprivileged()
	})
	base := filepath.Join(dir, "base")
	vh.CopyTree(blockDir, base)
	if err := syscall.Mkfifo(filepath.Join(base, "assets", blockRepo, "distribution.xml"), 0o644); err != nil {
		vh.Abort("%v", err)
	}
	os.Chmod(dir, 0o755)
	vh.Own(dir)
	return base
}

// queued reads what is in the queues of a daemon that is gone, the job that
// blocks it left out.
func queued(base string) []*jobs.JobEntry {
	st, err := jobs.NewStore(base)
	if err != nil {
		vh.Abort("the queue of a killed daemon cannot be opened: %v", err)
	}
	defer st.Close()
	var out []*jobs.JobEntry
	for _, claim := range []func() (*jobs.JobEntry, error){st.ClaimSequentialJob, st.ClaimAsyncJob} {
		for {
			j, err := claim()
			if err == jobs.ErrEmptyQueue {
				break
			}
			if err != nil {
				vh.Abort("claim: %v", err)
			}
			out = append(out, j)
		}
	}
	if len(out) == 0 || vh.JobType(out[0]) != string(jobs.IndexRepo) || len(vh.JobParams(out[0])) != 1 || vh.JobParams(out[0])[0] != blockRepo {
		vh.Abort("the blocking job is gone: %v", texts(out))
	}
	return out[1:]
}

func text(j *jobs.JobEntry) string { return fmt.Sprintf("%s%q", vh.JobType(j), vh.JobParams(j)) }

func texts(js []*jobs.JobEntry) []string {
	var out []string
	for _, j := range js {
		out = append(out, text(j))
	}
	return out
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// startBlocked starts a daemon over a blocked base.
func startBlocked(c *vh.Case) *vh.Daemon {
	base := blockedBase(c.Dir())
	d := vh.StartDaemon(base, filepath.Join(c.Dir(), "s"))
	if !d.Ready() {
		vh.Abort("the daemon does not start: %s", d.Output())
	}
	return d
}

// alive reports a daemon that ended by itself.
func alive(c *vh.Case, d *vh.Daemon, tag string) {
	if d.Exited(0) {
		o := d.Output()
		if i := strings.Index(o, "panic: "); i >= 0 {
			o = o[i:]
		}
		c.Fail(tag, "the daemon ended by itself: %s", short(o))
	}
}

func jsonResponse(msg string) ([]byte, error) {
	b, err := json.Marshal(&libferry.Response{Error: true, ErrorString: msg})
	return append(b, '\n'), err
}

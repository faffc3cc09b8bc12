//go:build go1.25

package vjobs

import (
	"fmt"
	"path/filepath"
	"strconv"
	"testing"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// C44: a job queued by an earlier version does what the same request does now.

// before is the type and the parameters that jobs of a kind are stored with.
func before(t *rapid.T) (vh.StoredJob, *jobs.JobEntry, bool) {
	a, b, c := genStr(t, "a"), genStr(t, "b"), genStr(t, "c")
	n := rapid.OneOf(rapid.IntRange(-3, 40), rapid.SampledFrom([]int{1<<31 - 1, -1 << 31, 1 << 31, 1<<63 - 1})).Draw(t, "n")
	f := rapid.Bool().Draw(t, "f")
	job := func(typ string, ps ...string) vh.StoredJob { return vh.StoredJob{Type: typ, Params: ps} }
	num := fmt.Sprintf("%d", n)
	switch rapid.IntRange(0, 13).Draw(t, "kind") {
	case 0:
		ps := []string{b, c}[:rapid.IntRange(1, 2).Draw(t, "paths")]
		return job("BulkAdd", append([]string{a}, ps...)...), jobs.NewBulkAddJob(a, ps), false
	case 1:
		mode := "tip"
		if f {
			mode = "full"
		}
		return job("CloneRepo", a, b, mode), jobs.NewCloneRepoJob(a, b, f), false
	case 2:
		return job("CopySource", a, b, c, num, fmt.Sprintf("%t", f)), jobs.NewCopySourceJob(a, b, c, n, f), false
	case 3:
		return job("CreateRepo", a), jobs.NewCreateRepoJob(a), false
	case 4:
		return job("DeleteRepo", a), jobs.NewDeleteRepoJob(a), false
	case 5:
		return job("Delta", a, b), jobs.NewDeltaJob(a, b), true
	case 6:
		return job("Delta+Index", a, b), jobs.NewDeltaIndexJob(a, b), true
	case 7:
		return job("DeltaRepo", a), jobs.NewDeltaRepoJob(a), false
	case 8:
		return job("PullRepo", a, b), jobs.NewPullRepoJob(a, b), false
	case 9:
		return job("RemoveSource", a, b, num), jobs.NewRemoveSourceJob(a, b, n), false
	case 10:
		return job("TransitProcess", a), jobs.NewTransitJob(a), false
	case 11:
		return job("TrimObsolete", a), jobs.NewTrimObsoleteJob(a), false
	case 12:
		return job("TrimPackages", a, num), jobs.NewTrimPackagesJob(a, n), false
	}
	return job("IndexRepo", a), jobs.NewIndexRepoJob(a), false
}

// TestStoredJobs lays out a queue as earlier versions stored it.
func TestStoredJobs(t *testing.T) {
	vh.SetRule("1-20 jobs of all kinds with arbitrary parameters in both queues, laid out in the stored form of the pinned version; each must be claimed in order and be handled as the same job that is queued now. Non-trivial: at least two kinds of jobs.")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		base := c.Dir()
		type queued struct {
			old vh.StoredJob
			now *jobs.JobEntry
			del bool
		}
		var q [2][]queued
		kinds := map[string]bool{}
		s := &vh.Stored{}
		first := rapid.SampledFrom([]uint64{0, 1, 200, 250, 255, 1 << 16, 1 << 40}).Draw(rt, "first key")
		for i, n := 0, rapid.IntRange(1, 20).Draw(rt, "n"); i < n; i++ {
			old, now, del := before(rt)
			k := rapid.IntRange(0, 1).Draw(rt, "queue")
			// a worker that was ended left its job claimed
			old.Claimed = len(q[k]) == 0 && rapid.Bool().Draw(rt, "claimed")
			old.Timing.Queued = time.Unix(1500000000+int64(i), int64(i)).UTC()
			if old.Claimed {
				old.Timing.Begin = old.Timing.Queued.Add(time.Minute)
			}
			s.Put([]string{[]string{"Sync", "Async"}[k]}, vh.Seq(first+uint64(len(q[k]))), &old)
			c.Op("%s %s%.60q", qname[k], old.Type, old.Params)
			c.Label(old.Type)
			kinds[old.Type] = true
			q[k] = append(q[k], queued{old, now, del})
		}
		if len(kinds) > 1 {
			c.Nontrivial()
		}
		s.Write(filepath.Join(base, "ferry_db_jobs"))
		var st *jobs.JobStore
		if o := vh.Guard(func() (err error) { st, err = jobs.NewStore(base); return }); o.Err != nil || o.Broken() != "" {
			c.Fail("C44", "opening the stored jobs: %v %s", o.Err, o.Broken())
			return
		}
		defer func() { st.Close() }()
		for k := range q {
			for i, x := range q[k] {
				var j *jobs.JobEntry
				o := vh.Guard(func() (err error) {
					if k == 0 {
						j, err = st.ClaimSequentialJob()
					} else {
						j, err = st.ClaimAsyncJob()
					}
					return
				})
				if o.Err != nil || o.Broken() != "" {
					c.Fail("C44", "stored job %d of the %s queue, %s%q, is not claimed: %v %s", i, qname[k], x.old.Type, x.old.Params, o.Err, o.Broken())
					return
				}
				c.Check(j.Timing.Queued.Equal(x.old.Timing.Queued), "C44", "stored job %d of the %s queue was queued at %v, it says %v", i, qname[k], x.old.Timing.Queued, j.Timing.Queued)
				show := func(j *jobs.JobEntry) string {
					h, err := jobs.NewJobHandler(j)
					if x.del {
						h, err = jobs.NewDeltaJobHandler(j, x.old.Type == "Delta+Index")
					}
					if err != nil {
						return "refused"
					}
					c.Label("handled")
					return strconv.Quote(h.Describe())
				}
				if g, w := show(j), show(x.now); g != w {
					c.Fail("C44", "stored job %d of the %s queue, %s%q, is handled to %s, the same request of now to %s", i, qname[k], x.old.Type, x.old.Params, g, w)
				}
				if x.del {
					c.Check(vh.JobType(j) == x.old.Type, "C44", "stored job %d of the %s queue, %s, is claimed as %s", i, qname[k], x.old.Type, vh.JobType(j))
				}
			}
		}
		c.End()
	})
}

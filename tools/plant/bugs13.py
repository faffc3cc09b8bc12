BUGS={}
J='src/ferryd/jobs/'; W=J+'worker.go'; P=J+'processor.go'; S=J+'store.go'
H='''//go:build go1.25

package jobs

import (
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libferry"
)

// demoRun has jobs run and gives the results in the order they were asked for.
func demoRun(t *testing.T, idle time.Duration, js ...*JobEntry) (all []*libferry.Job) {
	d := t.TempDir()
	synctest.Test(t, func(t *testing.T) {
		defer time.Sleep(10 * time.Second)
		m, err := core.NewManager(d)
		if err != nil {
			t.Fatal(err)
		}
		defer m.Close()
		s, err := NewStore(d)
		if err != nil {
			t.Fatal(err)
		}
		defer s.Close()
		p := NewProcessor(m, s, 2)
		p.Begin()
		defer p.Close()
		time.Sleep(idle)
		for _, j := range js {
			time.Sleep(time.Millisecond)
			if err := p.PushJob(j); err != nil {
				t.Fatal(err)
			}
		}
		time.Sleep(time.Duration(len(js)) * 30 * time.Second)
		a, _ := s.CompletedJobs()
		b, _ := s.FailedJobs()
		all = append(a, b...)
		sort.Slice(all, func(i, j int) bool { return all[i].Timing.Queued.Before(all[j].Timing.Queued) })
		if len(all) != len(js) {
			t.Fatal(len(all))
		}
	})
	return
}

// demoOrder looks whether they were begun in that order.
func demoOrder(t *testing.T, all []*libferry.Job) {
	for i := 1; i < len(all); i++ {
		if all[i].Timing.Begin.Before(all[i-1].Timing.End) {
			t.Fatal(all[i].Description, "before", all[i-1].Description)
		}
	}
}
'''
def bug(i,edits,needs,breaks,demo):
    BUGS[i]=dict(property='C47',edits=edits,needs=needs,breaks=breaks,pkg='src/ferryd/jobs',demo=H+demo)
bug('c47-index-beside',[(J+'index.go','sequential: true','sequential: false')],'a repository is to be indexed while other operations wait or run','it is indexed beside them, with what they have not done or half done','''
func TestDemo(t *testing.T) {
	demoOrder(t, demoRun(t, 0, NewCreateRepoJob("a"), NewCreateRepoJob("b"), NewCreateRepoJob("c"), NewIndexRepoJob("c")))
}
''')
bug('c47-two-workers',[(P,'''	ret.workers = append(ret.workers, NewWorkerSequential(ret))
''','''	ret.workers = append(ret.workers, NewWorkerSequential(ret))
	if njobs > 2 {
		// One takes over when the other one is busy
		ret.workers = append(ret.workers, NewWorkerSequential(ret))
	}
'''),(P,'j.wg.Add(j.njobs + 1)','j.wg.Add(len(j.workers))')],'a daemon with more than two background workers, and operations that wait for another','two operations run at the same time','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m, err := core.NewManager(d)
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	s, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	n := 0
	for _, w := range NewProcessor(m, s, 4).workers {
		if w.sequential {
			n++
		}
	}
	if n != 1 {
		t.Fatal(n)
	}
}
''')
bug('c47-tired',[(W,'''	sequential bool
	exit ''','''	sequential bool
	empty      int
	exit '''),(W,'''				if err != ErrEmptyQueue {
''','''				if err == ErrEmptyQueue && w.empty < 5 {
					w.empty++
				}
				if err != ErrEmptyQueue {
'''),(W,'''			// Got a job, now process it
''','''			w.empty = 0

			// Got a job, now process it
'''),(W,'''	delay := MinWait + (time''','''	// Look less often while there is nothing to do
	delay := MinWait*time.Duration(1+w.empty) + (time''')],'nothing was asked of the daemon for a while','the next operation waits for up to twelve seconds','''
func TestDemo(t *testing.T) {
	for _, i := range []int{1, 47, 61, 83} {
		for _, j := range demoRun(t, time.Duration(i)*time.Second, NewCreateRepoJob("a")) {
			if d := j.Timing.Begin.Sub(j.Timing.Queued); d > 3*time.Second {
				t.Fatal(d)
			}
		}
	}
}
''')
bug('c47-uploads-beside',[(J+'transit_job.go','sequential: true','sequential: false')],'an upload is completed while other operations wait or run','it is imported beside them, before what was asked for earlier','''
func TestDemo(t *testing.T) {
	demoOrder(t, demoRun(t, 0, NewCreateRepoJob("a"), NewCreateRepoJob("b"), NewCreateRepoJob("c"), NewTransitJob("/nonexistent/x.tram")))
}
''')
bug('c47-failed-pause',[(W,'''	w := &Worker{
		sequential: sequential,
''','''	w := &Worker{
		pause:      new(time.Duration),
		sequential: sequential,
'''),(W,'''	sequential bool
	exit ''','''	sequential bool
	pause      *time.Duration
	exit '''),(W,'''			// We had a job, so we must reset the timeout period
			w.setTime()
''','''			// Somebody might want to look at what went wrong first
			*w.pause = 0
			if job.failure != nil {
				*w.pause = MinWait * 2
			}

			// We had a job, so we must reset the timeout period
			w.setTime()
'''),(W,'''	delay := MinWait + (time''','''	delay := MinWait + *w.pause + (time''')],'an operation fails while others wait','they are kept waiting though the daemon does nothing','''
func TestDemo(t *testing.T) {
	all := demoRun(t, 0, NewCreateRepoJob("a"), NewIndexRepoJob("none"), NewCreateRepoJob("c"))
	if d := all[2].Timing.Begin.Sub(all[1].Timing.End); d > 3*time.Second {
		t.Fatal(d)
	}
}
''')
bug('c47-same-again',[(W,'''			// Got a job, now process it
			w.processJob(job)
''','''			// Got a job, now process it
			if job.Type == TrimObsolete || job.Type == DeleteRepo {
				// Tidying up needn't hold up the rest
				w.wg.Add(1)
				go func() {
					defer w.wg.Done()
					w.processJob(job)
					job.Timing.End = time.Now().UTC()
					if err := w.reaper(job); err != nil {
						log.WithField("error", err).Error("Error in retiring job")
					}
				}()
				w.setTime()
				continue
			}
			w.processJob(job)
''')],'an operation is begun while a repository is being removed or trimmed of obsoletes','both run at the same time','''
func TestDemo(t *testing.T) {
	d := t.TempDir()
	m, err := core.NewManager(d)
	if err != nil {
		t.Fatal(err)
	}
	defer m.Close()
	s, err := NewStore(d)
	if err != nil {
		t.Fatal(err)
	}
	defer s.Close()
	if err := m.CreateRepo("a"); err != nil {
		t.Fatal(err)
	}
	// one that takes a while
	fifo := filepath.Join(d, "assets", "a", "distribution.xml")
	os.MkdirAll(filepath.Dir(fifo), 0755)
	for i := 0; i < 60000; i++ {
		if err := os.WriteFile(filepath.Join(d, "assets", "a", fmt.Sprint(i)), nil, 0644); err != nil {
			t.Fatal(err)
		}
	}
	p := NewProcessor(m, s, 2)
	p.Begin()
	p.PushJob(NewDeleteRepoJob("a"))
	var n int
	for i := 0; i < 1200; i++ {
		time.Sleep(5 * time.Millisecond)
		all, err := s.ActiveJobs()
		if err != nil {
			t.Fatal(err)
		}
		if len(all) == 0 {
			break
		}
		n = i
	}
	_ = n
	p.Close()
}
''')
del BUGS['c47-same-again']

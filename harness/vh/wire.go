//go:build go1.25

package vh

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"

	"github.com/getsolus/ferryd/src/libferry"
)

// The form of requests and answers, written down independently of the code
// that makes and reads them: C44 talks in it.

type WireResponse struct {
	Error       bool   `json:"Error"`
	ErrorString string `json:"ErrorString"`
}

type WireRepos struct {
	WireResponse
	Repos []string `json:"repos"`
}

type WirePoolItem struct {
	ID       string `json:"id"`
	RefCount int    `json:"refCount"`
}

type WirePool struct {
	WireResponse
	Items []WirePoolItem `json:"items"`
}

type WireTiming struct {
	Queued time.Time `json:"queued"`
	Begin  time.Time `json:"begin"`
	End    time.Time `json:"end"`
}

type WireJob struct {
	Description string     `json:"description"`
	Timing      WireTiming `json:"timing"`
	Failed      bool       `json:"failed"`
	Error       string     `json:"error"`
}

type WireStatus struct {
	WireResponse
	TimeStarted   time.Time  `json:"timeStarted"`
	Version       string     `json:"version"`
	FailedJobs    []*WireJob `json:"failedJobs"`
	CurrentJobs   []*WireJob `json:"currentJobs"`
	CompletedJobs []*WireJob `json:"completedJobs"`
}

// WireBody is the body of any request.
type WireBody struct {
	WireResponse
	Path      []string `json:"path,omitempty"`
	CloneName *string  `json:"cloneName,omitempty"`
	CopyAll   *bool    `json:"copyAll,omitempty"`
	Source    *string  `json:"source,omitempty"`
	Target    *string  `json:"target,omitempty"`
	Release   *int     `json:"relno,omitempty"`
	SkipIndex *bool    `json:"skipIndex,omitempty"`
	MaxKeep   *int     `json:"maxPackages,omitempty"`
}

// Wire is a client of an earlier version.
type Wire struct{ hc *http.Client }

func NewWire(sock string) *Wire {
	return &Wire{&http.Client{Timeout: 2 * time.Minute, Transport: &http.Transport{DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) { return net.Dial("unix", sock) }}}}
}

func (w *Wire) Close() { w.hc.CloseIdleConnections() }

func (w *Wire) do(path, id string, body, answer any) error {
	if id != "" {
		path += "/" + url.PathEscape(id)
	}
	var resp *http.Response
	var err error
	if body == nil {
		resp, err = w.hc.Get("http://localhost.localdomain:0/api/v1/" + path)
	} else {
		b := &bytes.Buffer{}
		if err := json.NewEncoder(b).Encode(body); err != nil {
			Abort("%v", err)
		}
		resp, err = w.hc.Post("http://localhost.localdomain:0/api/v1/"+path, "application/json; charset=utf-8", b)
	}
	if err != nil {
		return err
	}
	defer resp.Body.Close()
	text, err := io.ReadAll(resp.Body)
	if err != nil {
		return err
	}
	if resp.StatusCode != http.StatusOK {
		return fmt.Errorf("%s: %s", resp.Status, text)
	}
	if answer != nil {
		return json.Unmarshal(text, answer)
	}
	if r := (WireResponse{}); len(text) > 0 && json.Unmarshal(text, &r) == nil && r.Error {
		return fmt.Errorf("%s", r.ErrorString)
	}
	return nil
}

func (w *Wire) CreateRepo(id string) error   { return w.do("create/repo", id, nil, nil) }
func (w *Wire) DeleteRepo(id string) error   { return w.do("remove/repo", id, nil, nil) }
func (w *Wire) DeltaRepo(id string) error    { return w.do("delta/repo", id, nil, nil) }
func (w *Wire) IndexRepo(id string) error    { return w.do("index/repo", id, nil, nil) }
func (w *Wire) TrimObsolete(id string) error { return w.do("trim/obsoletes", id, nil, nil) }
func (w *Wire) ResetFailed() error           { return w.do("reset/failed", "", nil, nil) }
func (w *Wire) ResetCompleted() error        { return w.do("reset/completed", "", nil, nil) }

func (w *Wire) ImportPackages(id string, pkgs []string) error {
	return w.do("import", id, &struct {
		WireResponse
		Path []string `json:"path"`
	}{Path: pkgs}, nil)
}

func (w *Wire) CloneRepo(id, clone string, full bool) error {
	return w.do("clone", id, &WireBody{CloneName: &clone, CopyAll: &full}, nil)
}

func (w *Wire) PullRepo(source, target string) error {
	return w.do("pull", target, &WireBody{Source: &source}, nil)
}

func (w *Wire) RemoveSource(id, source string, rel int) error {
	return w.do("remove/source", id, &WireBody{Source: &source, Release: &rel}, nil)
}

func (w *Wire) CopySource(id, target, source string, rel int, skip bool) error {
	return w.do("copy/source", id, &WireBody{Target: &target, Source: &source, Release: &rel, SkipIndex: &skip}, nil)
}

func (w *Wire) TrimPackages(id string, keep int) error {
	return w.do("trim/packages", id, &WireBody{MaxKeep: &keep}, nil)
}

func (w *Wire) GetRepos() ([]string, error) {
	var r WireRepos
	err := w.do("list/repos", "", nil, &r)
	return r.Repos, err
}

func (w *Wire) GetPoolItems() ([]libferry.PoolItem, error) {
	var r WirePool
	err := w.do("list/pool", "", nil, &r)
	var out []libferry.PoolItem
	for _, i := range r.Items {
		out = append(out, libferry.PoolItem{ID: i.ID, RefCount: i.RefCount})
	}
	return out, err
}

func (w *Wire) GetStatus() (*libferry.StatusRequest, error) {
	var r WireStatus
	if err := w.do("status", "", nil, &r); err != nil {
		return nil, err
	}
	set := func(in []*WireJob) (out libferry.JobSet) {
		for _, j := range in {
			x := &libferry.Job{Description: j.Description, Failed: j.Failed, Error: j.Error}
			x.Timing.Queued, x.Timing.Begin, x.Timing.End = j.Timing.Queued, j.Timing.Begin, j.Timing.End
			out = append(out, x)
		}
		return
	}
	return &libferry.StatusRequest{TimeStarted: r.TimeStarted, Version: r.Version, FailedJobs: set(r.FailedJobs), CurrentJobs: set(r.CurrentJobs), CompletedJobs: set(r.CompletedJobs)}, nil
}

// Talker is what speaks to a daemon: the client, or one of an earlier version.
type Talker interface {
	CreateRepo(string) error
	DeleteRepo(string) error
	DeltaRepo(string) error
	IndexRepo(string) error
	TrimObsolete(string) error
	ResetFailed() error
	ResetCompleted() error
	ImportPackages(string, []string) error
	CloneRepo(string, string, bool) error
	PullRepo(string, string) error
	RemoveSource(string, string, int) error
	CopySource(string, string, string, int, bool) error
	TrimPackages(string, int) error
	GetRepos() ([]string, error)
	GetPoolItems() ([]libferry.PoolItem, error)
	GetStatus() (*libferry.StatusRequest, error)
	Close()
}

// Talk is the client, or for C44 one of an earlier version.
func Talk(sock string) Talker {
	if PID == "C44" {
		return NewWire(sock)
	}
	return libferry.NewClient(sock)
}

//go:build go1.25

package vh

import (
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Held lists what this process has open or mapped below dir, databases left out.
func Held(dir string) []string {
	mine := func(p string) bool {
		return strings.HasPrefix(p, dir+"/") && !strings.Contains(p, "ferry_db")
	}
	var out []string
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		Abort("%v", err)
	}
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && mine(p) {
			out = append(out, "open: "+strings.TrimPrefix(p, dir+"/"))
		}
	}
	m, err := os.ReadFile("/proc/self/maps")
	if err != nil {
		Abort("%v", err)
	}
	if strings.Contains(string(m), dir) {
		for _, l := range strings.Split(string(m), "\n") {
			if _, p, ok := strings.Cut(l, "/"); ok && mine("/"+p) {
				out = append(out, "mapped: "+strings.TrimPrefix("/"+p, dir+"/"))
			}
		}
	}
	sort.Strings(out)
	return out
}

// CheckHeld is C43: whatever was done last keeps no file open.
func (c *Case) CheckHeld(what string) {
	dir, err := filepath.EvalSymlinks(c.Dir())
	if err != nil {
		return
	}
	if h := Held(dir); len(h) > 0 {
		if len(h) > 5 {
			h = h[:5]
		}
		c.Fail("C43", "%s keeps files open: %q", what, h)
	}
}

// Sockets counts the sockets this process has.
func Sockets() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		Abort("%v", err)
	}
	n := 0
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(p, "socket:") {
			n++
		}
	}
	return n
}

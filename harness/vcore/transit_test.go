//go:build go1.25

package vcore

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/jobs"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// upFile is one file of an upload as its manifest names it.
type upFile struct {
	pkg  *vh.Pkg
	path string // as written in the manifest
	sha  string
	drop string // "path" or "sha": left out
}

// upload is a manifest with its files.
type upload struct {
	target, version string
	noTarget, noVer bool
	noHeader        bool
	files           []upFile
	raw             func(string) string // damages the text
	why             string              // why it must be refused before anything happens ("" when well-formed)
}

func sha256hex(b []byte) string {
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:])
}

func quoteTOML(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < 0x20:
			fmt.Fprintf(&b, "\\u%04X", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String() + "\""
}

func (u *upload) text() string {
	var b strings.Builder
	if !u.noHeader {
		b.WriteString("[manifest]\n")
		if !u.noVer {
			fmt.Fprintf(&b, "version = %s\n", quoteTOML(u.version))
		}
		if !u.noTarget {
			fmt.Fprintf(&b, "target = %s\n", quoteTOML(u.target))
		}
	}
	for _, f := range u.files {
		b.WriteString("\n[[file]]\n")
		if f.drop != "path" {
			fmt.Fprintf(&b, "path = %s\n", quoteTOML(f.path))
		}
		if f.drop != "sha" {
			fmt.Fprintf(&b, "sha256 = %s\n", quoteTOML(f.sha))
		}
	}
	t := b.String()
	if u.raw != nil {
		t = u.raw(t)
	}
	return t
}

// doUpload writes an upload into an incoming directory and processes it.
func (w *World) doUpload(v []int) {
	st := w.last
	dir, err := os.MkdirTemp(w.inbox, "up")
	if err != nil {
		vh.Abort("%v", err)
	}
	defer os.RemoveAll(dir)
	// blanks around a target do not count, so it can only name a repository without any
	target := strings.TrimSpace(w.repoOf(st, v[0], false))
	u := &upload{target: target, version: "1.0"}
	if _, ok := st.Repos[target]; !ok {
		u.why = "its target is no repository"
	}
	// the packages: mostly of one source and mostly newer than what is there
	n := 1 + mix(v[1], 4)
	many := 0
	if v[1]%9 == 8 {
		n, many = 9+mix(v[1], 7), 3
	}
	seen := map[string]bool{}
	var ps []*vh.Pkg
	for i := 0; i < n; i++ {
		p := w.pkgOf(v[2]+i*many, v[3]+i*7, v[4]+i*131)
		if mix(v[5]+i, 3) != 0 {
			if q := w.newer(st, target, p, seen); q != nil {
				p = q
			}
		}
		if seen[p.ID] {
			continue
		}
		seen[p.ID] = true
		if st.Pool[p.ID].Hash != "" && mix(v[6]+i, 4) == 0 {
			p = w.rebuilt(p)
		}
		ps = append(ps, p)
	}
	sub := ""
	switch mix(v[7], 8) {
	case 0:
		sub = "sub/dir"
	case 1:
		sub = "with space"
	}
	for _, p := range ps {
		rel := p.ID
		switch {
		case sub != "":
			rel = sub + "/" + p.ID
			if mix(v[8], 2) == 0 {
				rel = sub + "/../" + filepath.Base(sub) + "/" + p.ID
			}
		case mix(v[8], 6) == 0:
			rel = "./" + p.ID
		}
		p.WriteTo(filepath.Join(dir, sub))
		u.files = append(u.files, upFile{pkg: p, path: rel, sha: sha256hex(p.Bytes)})
	}
	// harmless freedom of the format
	if mix(v[9], 7) == 0 {
		u.target = " " + u.target + "\t"
		u.version = " 1.0 "
		u.files[0].path = " " + u.files[0].path + " "
		u.files[0].sha = "\n" + u.files[0].sha
	}
	extra := filepath.Join(dir, "other-1-1-1-x86_64.eopkg")
	os.WriteFile(extra, []byte("not part of it"), 0o644)
	os.WriteFile(filepath.Join(dir, "other.tram"), []byte("another upload"), 0o644)
	fi := mix(v[10], len(u.files))
	f := &u.files[fi]
	real := filepath.Join(dir, sub, f.pkg.ID)
	defect, outside := "", ""
	if v[11]%2 == 0 {
		defect = []string{"version", "noversion", "notarget", "emptytarget", "blanktarget", "unknown", "case", "prefix", "nofiles", "nopath", "nosha", "emptysha", "blankpath",
			"suffix", "tram", "missing", "wrongsha", "shaof", "flip", "cutsha", "changed", "grown", "dir", "syntax", "cut", "noheader", "badrelease", "twice", "garbage", "emptyfile", "outside"}[mix(v[12], 31)]
	}
	why := u.why
	good := *f
	switch defect {
	case "":
	case "version":
		u.version, why = []string{"1.1", "2.0", "1", "1.0.0", "v1.0", "01.0", "1.00"}[mix(v[13], 7)], "version"
	case "noversion":
		u.noVer, why = true, "version"
	case "notarget":
		u.noTarget, why = true, "target"
	case "emptytarget":
		u.target, why = "", "target"
	case "blanktarget":
		u.target, why = " \t", "target"
	case "unknown", "case", "prefix":
		t := map[string]string{"unknown": "nowhere", "case": strings.ToUpper(target), "prefix": target[:len(target)-1]}[defect]
		if _, ok := st.Repos[strings.TrimSpace(t)]; ok || strings.TrimSpace(t) == "" {
			t = "nowhere"
		}
		u.target, why = t, "target"
	case "nofiles":
		u.files, why = nil, "no files"
	case "nopath":
		f.drop, why = "path", "no path"
	case "nosha":
		f.drop, why = "sha", "no digest"
	case "emptysha":
		f.sha, why = []string{"", "  "}[mix(v[13], 2)], "no digest"
	case "blankpath":
		f.path, why = []string{"", "  "}[mix(v[13], 2)], "no path"
	case "suffix", "tram":
		sfx := map[string]string{"suffix": ".zip", "tram": ".tram"}[defect]
		os.WriteFile(real+sfx, f.pkg.Bytes, 0o644)
		f.path, why = strings.TrimSpace(f.path)+sfx, "no package"
	case "missing":
		os.Remove(real)
		why = "missing file"
	case "wrongsha":
		f.sha, why = sha256hex([]byte("something else")), "digest"
	case "shaof":
		g := u.files[(fi+1)%len(u.files)]
		if g.sha == f.sha {
			f.sha = f.pkg.SHA1
		} else {
			f.sha = g.sha
		}
		why = "digest"
	case "flip":
		b := []byte(strings.TrimSpace(f.sha))
		k := mix(v[13], len(b))
		b[k] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", b[k])+1+mix(v[14], 15))%16]
		f.sha, why = string(b), "digest"
	case "cutsha":
		s := strings.TrimSpace(f.sha)
		f.sha, why = s[:1+mix(v[13], len(s)-1)], "digest"
	case "changed":
		b := append([]byte(nil), f.pkg.Bytes...)
		b[mix(v[13], len(b))] ^= 1 << mix(v[14], 8)
		os.WriteFile(real, b, 0o644)
		why = "digest"
	case "grown":
		b := append([]byte(nil), f.pkg.Bytes...)
		if mix(v[13], 2) == 0 {
			b = append(b, 0)
		} else {
			b = b[:len(b)-1]
		}
		os.WriteFile(real, b, 0o644)
		why = "digest"
	case "dir":
		os.Remove(real)
		os.Mkdir(real, 0o755)
		why = "a directory"
	case "syntax":
		add := []string{"\n[[file]\n", "\n= 3\n", "\nx = \"\n", "\n[manifest]\n"}[mix(v[13], 4)]
		u.raw, why = func(t string) string { return t + add }, "syntax"
	case "cut":
		// somewhere within the last digest: the quote is missing
		u.raw, why = func(t string) string { return t[:len(t)-2-mix(v[13], 60)] }, "syntax"
	case "noheader":
		u.noHeader, why = true, "no header"
	case "outside":
		// a file that is not the uploader's: one in use, or another's upload
		var there []string
		for id, i := range st.Pool {
			for r, es := range st.Repos {
				if contains(es[i.Name].Avail, id) {
					there = append(there, filepath.Join(w.base, "repo", r, i.URI))
				}
			}
			there = append(there, filepath.Join(w.base, "pool", i.URI))
		}
		sort.Strings(there)
		other := real + ".other"
		switch k := mix(v[13], 3); {
		case k < 2 && len(there) > 0:
			other = there[mix(v[14], len(there))]
		default:
			os.Remove(real)
			beside, err := os.MkdirTemp(w.inbox, "beside")
			if err != nil {
				vh.Abort("%v", err)
			}
			defer os.RemoveAll(beside)
			other = f.pkg.WriteTo(beside)
		}
		b, err := os.ReadFile(other)
		if err != nil {
			vh.Abort("%v", err)
		}
		rel, err := filepath.Rel(dir, other)
		if err != nil {
			vh.Abort("%v", err)
		}
		f.path, f.sha, why = []string{"", "./", "sub/../", "/"}[mix(v[15], 4)]+rel, sha256hex(b), "outside"
		outside = other
	case "emptyfile":
		os.WriteFile(real, nil, 0o644)
		why = "digest"
	}
	switch defect {
	case "wrongsha", "shaof", "flip", "cutsha", "emptysha", "nosha":
		// the file is listed properly as well
		if mix(v[15], 3) == 0 {
			u.files = append(u.files, good)
			if k := len(u.files) - 1; mix(v[13], 2) == 0 {
				u.files[fi], u.files[k] = u.files[k], u.files[fi]
			}
			w.Label("upload:refused:twice")
		}
	}
	u.why = why
	badAt := -1
	switch defect {
	case "badrelease": // one that is not newer than what is published
		if es := st.Repos[target]; len(es) > 0 {
			ns := vh.SortedKeys(es)
			pub := w.pkgs[es[ns[mix(v[13], len(ns))]].Published]
			if pub != nil && !seen[pub.ID] {
				p := pub
				for _, s := range w.srcs {
					if s.Name == pub.Source && mix(v[14], 2) == 0 {
						p = w.mkPkg(s, pub.Name, releases[mix(v[14], len(releases))], "")
					}
				}
				if !seen[p.ID] {
					p.WriteTo(filepath.Join(dir, sub))
					rel := p.ID
					if sub != "" {
						rel = sub + "/" + p.ID
					}
					u.files = append(u.files, upFile{pkg: p, path: rel, sha: sha256hex(p.Bytes)})
					if mix(v[13]+1, 2) == 0 { // it comes first
						k := len(u.files) - 1
						u.files[0], u.files[k] = u.files[k], u.files[0]
					}
				}
			}
		}
	case "twice":
		u.files = append(u.files, u.files[fi])
	case "garbage": // no package, with the right digest
		b := []byte("this is no archive")
		os.WriteFile(real, b, 0o644)
		f.sha = sha256hex(b)
		badAt = fi
	}
	mp := filepath.Join(dir, "an upload.tram")
	os.WriteFile(mp, []byte(u.text()), 0o644)
	before := vh.Tree(dir)

	e := expect{tags: "C18", repos: copyRepos(st.Repos), target: target, index: true}
	accepted := false
	stale := false
	if u.why != "" {
		e.err, e.index = true, false
		w.Label("upload:refused:" + defect)
		if defect == "" {
			w.Label("upload:refused:target")
		}
	} else {
		es := e.repos[target]
		inPool := map[string]bool{}
		for id := range st.Pool {
			inPool[id] = true
		}
		for i, f := range u.files {
			if i == badAt {
				e.err = true
				break
			}
			p := f.pkg
			if !inPool[p.ID] {
				w.pkgs[p.ID] = p
			}
			top := -1
			for _, id := range es[p.Name].Avail {
				top = max(top, w.release(id))
			}
			if top >= p.Release {
				e.err, stale = true, true
				break
			}
			inPool[p.ID] = true
			addAvail(es, p.Name, p.ID)
		}
		if e.err {
			prev, all := w.last.Repos[target], es
			e.free = true
			e.pred = func(got map[string]Entry) string {
				for _, n := range vh.SortedKeys(prev) {
					x := prev[n]
					if !sameSet(intersect(got[n].Avail, x.Avail), x.Avail) || !sameSet(got[n].Deltas, x.Deltas) {
						return fmt.Sprintf("%s has %v, had %v", n, got[n], x)
					}
				}
				for _, n := range vh.SortedKeys(got) {
					for _, id := range got[n].Avail {
						if !setOf(all[n].Avail)[id] {
							return fmt.Sprintf("%s has %s", n, id)
						}
					}
				}
				return ""
			}
			w.Label("upload:notnewer")
		} else {
			accepted = true
			w.Label("upload:accepted")
		}
	}
	var what []string
	for _, f := range u.files {
		what = append(what, strings.TrimSpace(f.path))
	}
	desc := fmt.Sprintf("upload to %q of %s", target, strings.Join(what, ", "))
	if defect != "" {
		desc += " with defect " + defect
	}
	_, rerr := w.run(desc, e, func() error {
		h, err := jobs.NewTransitJobHandler(jobs.NewTransitJob(mp))
		if err != nil {
			return err
		}
		return h.Execute(nil, w.m)
	})
	if w.dead {
		return
	}
	if outside != "" {
		if _, err := os.Stat(outside); err != nil {
			w.Fail("C18,C16", "the %s is processed and %v", desc, err)
			return
		}
	}
	after := vh.Tree(dir)
	want := map[string]string{}
	for k, x := range before {
		want[k] = x
	}
	if accepted && rerr == nil {
		delete(want, "an upload.tram")
		for _, f := range u.files {
			delete(want, filepath.Join(sub, f.pkg.ID))
		}
	}
	if d := vh.DiffTree(want, after); d != "" {
		w.Fail("C18", "after the %s the incoming directory differs from what it should be: %s", desc, d)
	}
	if accepted {
		w.invariants(w.last, false) // ours must not have gone with the upload
	}
	if stale {
		w.Label("upload:stale")
	}
}

// newer is a build of the same name that is newer than everything around.
func (w *World) newer(st *State, r string, p *vh.Pkg, seen map[string]bool) *vh.Pkg {
	top := -1
	for _, id := range st.Repos[r][p.Name].Avail {
		top = max(top, w.release(id))
	}
	for _, s := range w.srcs {
		if s.Name != p.Source {
			continue
		}
		for _, rel := range append(append([]int(nil), releases...), 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112) {
			if rel <= top {
				continue
			}
			q := w.mkPkg(s, p.Name, rel, "")
			if !seen[q.ID] {
				return q
			}
		}
	}
	return nil
}

func TestTransit(t *testing.T) {
	vh.SetRule("uploads with well-formed and defective manifests (31 kinds of defect) between random repository operations, processed by the job handler, state and incoming directory compared with a model; non-trivial when an upload was accepted and another refused")
	rapid.Check(t, func(rt *rapid.T) {
		w := newWorld(rt)
		defer w.Cleanup()
		defer w.close()
		w.genUniverse()
		w.prelude()
		n := rapid.IntRange(2, 12).Draw(rt, "n")
		for i := 0; i < n && !w.dead; i++ {
			var o op
			o.Kind = []string{"upload", "upload", "upload", "add", "copySource", "delete", "create", "trimPackages", "reopen", "removeSource", "clone"}[rapid.IntRange(0, 10).Draw(rt, "kind")]
			if o.Kind == "upload" {
				v := make([]int, 16)
				for i := range v {
					v[i] = rapid.IntRange(0, 1023).Draw(rt, "v")
				}
				w.doUpload(v)
				continue
			}
			for i := range o.V {
				o.V[i] = rapid.IntRange(0, 1023).Draw(rt, "v")
			}
			w.apply(o)
		}
		if w.Has("upload:accepted") && (w.Has("refused")) {
			w.Nontrivial()
		}
		w.End()
	})
}

//go:build go1.25

package vio

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

// genCuts draws where a text of n bytes is cut into writes.
func genCuts(t *rapid.T, n int) []int {
	var cuts []int
	switch rapid.IntRange(0, 3).Draw(t, "cutting") {
	case 0:
		for i := 1; i < n; i++ {
			cuts = append(cuts, i)
		}
	case 1:
		k := rapid.SampledFrom([]int{2, 3, 5, 16, 4096}).Draw(t, "every")
		for i := k; i < n; i += k {
			cuts = append(cuts, i)
		}
	default:
		for i := rapid.IntRange(0, 12).Draw(t, "ncuts"); i > 0; i-- {
			cuts = append(cuts, rapid.IntRange(0, n).Draw(t, "cut"))
		}
		sort.Ints(cuts)
	}
	return cuts
}

// escape pushes b through the writer in pieces.
func escape(c *vh.Case, b []byte, cuts []int) string {
	var out bytes.Buffer
	o := vh.Guard(func() error {
		w := core.NewEscapedWriter(&out)
		at := 0
		for _, k := range append(append([]int(nil), cuts...), len(b)) {
			piece := append([]byte(nil), b[at:k]...)
			n, err := w.Write(piece)
			if err != nil {
				return err
			}
			if n != len(piece) {
				return fmt.Errorf("%d of %d bytes accepted", n, len(piece))
			}
			if !bytes.Equal(piece, b[at:k]) {
				return fmt.Errorf("the writer changes what it is given")
			}
			// a writer must not hold on to the caller's buffer
			for i := range piece {
				piece[i] = '!'
			}
			at = k
		}
		return w.Flush()
	})
	if o.Err != nil || o.Broken() != "" {
		c.Fail("C07", "writing %q in pieces %v: %v %s", b, cuts, o.Err, o.Broken())
	}
	return out.String()
}

// TestEscape is the stream part of C07.
func TestEscape(t *testing.T) {
	vh.SetRule("random text, valid UTF-8 or not, cut into writes at random places including inside characters; through the escaping writer the pieces must give what the whole gives, and a reader must find the text again; non-trivial when a multi-byte character is cut")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		text := genText(rt, "text", true)
		var b bytes.Buffer
		xml.EscapeText(&b, []byte(text))
		raw := b.Bytes()
		valid := true
		if rapid.IntRange(0, 3).Draw(rt, "invalid") == 0 && len(raw) > 0 {
			raw = append([]byte(nil), raw...)
			for i := rapid.IntRange(1, 4).Draw(rt, "bad"); i > 0; i-- {
				raw[rapid.IntRange(0, len(raw)-1).Draw(rt, "where")] = byte(rapid.IntRange(0x80, 0xff).Draw(rt, "byte"))
			}
			if rapid.Bool().Draw(rt, "tail") {
				raw = append(raw, 0xe2, 0x82)
			}
			valid = false
		}
		cuts := genCuts(rt, len(raw))
		c.Op("%q cut at %v", cutStr(string(raw), 600), cuts[:min(len(cuts), 40)])
		for _, k := range cuts {
			if k > 0 && k < len(raw) && !utf8.RuneStart(raw[k]) {
				c.Nontrivial()
				c.Label("cut inside a character")
				break
			}
		}
		whole := escape(c, raw, nil)
		pieces := escape(c, raw, cuts)
		if whole != pieces {
			c.Fail("C07", "cut into pieces the text comes out differently:%s", diffText(fmt.Sprintf("%q", pieces), fmt.Sprintf("%q", whole)))
		}
		if !utf8.ValidString(whole) {
			c.Fail("C07", "the output is not valid UTF-8: %q", cutStr(whole, 200))
		}
		if valid {
			n, err := vh.ParseXML(strings.NewReader("<x>" + pieces + "</x>"))
			if err != nil {
				c.Fail("C07", "the output is not well-formed: %v", err)
			} else if got, want := n.Text, text; got != want {
				c.Fail("C07", "a reader finds another text:%s", diffText(fmt.Sprintf("%q", got), fmt.Sprintf("%q", want)))
			}
		}
		c.End()
	})
}

// TestIndexText is the end to end part of C07: packages and assets of awkward
// text, imported and indexed, read back from the index.
func TestIndexText(t *testing.T) {
	vh.SetRule("repositories of 1-4 packages and asset files with awkward text in every field (markup, CDATA ends, symbols, spaces, astral characters, long paragraphs that cross the writers' buffers); the index is parsed by an independent reader and compared field by field; non-trivial when text contains characters that the index writes as references")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		base, inbox := filepath.Join(c.Dir(), "base"), filepath.Join(c.Dir(), "in")
		os.MkdirAll(base, 0o755)
		type item struct {
			m *model
			p *vh.Pkg
		}
		var items []item
		var paths []string
		names := map[string]bool{}
		for i := rapid.IntRange(1, 4).Draw(rt, "packages"); i > 0; i-- {
			m := genModel(rt, true)
			if names[m.Name] {
				continue
			}
			names[m.Name] = true
			p := m.build(rt, fmt.Sprintf("p%d-1-1-1-x86_64.eopkg", i))
			items = append(items, item{m, p})
			paths = append(paths, p.WriteTo(inbox))
			c.Op("package %s: %s", p.ID, cutStr(m.node().String(), 1200))
			if interesting(m) {
				c.Nontrivial()
			}
		}
		as := genAssets(rt)
		for k, v := range as {
			c.Op("%s: %s", k, cutStr(v.String(), 600))
		}
		var data []byte
		o := vh.Guard(func() error {
			mg, err := core.NewManager(base)
			if err != nil {
				return err
			}
			defer func() { mg.Close() }()
			if err := mg.CreateRepo("r"); err != nil {
				return err
			}
			for f, n := range as {
				var b strings.Builder
				renderer{rt, rapid.IntRange(0, 127).Draw(rt, "astyle")}.write(&b, n, "")
				if err := os.WriteFile(filepath.Join(base, "assets", "r", f), []byte(b.String()), 0o644); err != nil {
					vh.Abort("%v", err)
				}
			}
			if err := mg.AddPackages("r", paths, false); err != nil {
				return err
			}
			if rapid.Bool().Draw(rt, "restart") {
				mg.Close()
				if mg, err = core.NewManager(base); err != nil {
					return err
				}
				if err := mg.Index("r"); err != nil {
					return err
				}
			}
			data, err = os.ReadFile(filepath.Join(base, "repo", "r", "eopkg-index.xml"))
			return err
		})
		if o.Err != nil || o.Broken() != "" {
			c.Fail("C07", "the packages cannot be imported and indexed: %v %s", o.Err, o.Broken())
			return
		}
		if !utf8.Valid(data) {
			c.Fail("C07", "the index is not valid UTF-8")
		}
		root, err := vh.ParseXML(bytes.NewReader(data))
		if err != nil {
			c.Fail("C07", "the index is not well-formed: %v", err)
			return
		}
		got := map[string]*vh.Node{}
		for _, n := range root.All("Package") {
			got[filepath.Base(n.Get("PackageURI"))] = n
		}
		if len(got) != len(items) {
			c.Fail("C07,C04", "the index has %d packages of %d", len(got), len(items))
		}
		for _, it := range items {
			n := got[it.p.ID]
			if n == nil {
				c.Fail("C07,C04", "the index lacks %s", it.p.ID)
				continue
			}
			x := vh.Elem("Package")
			for _, k := range n.Kids {
				switch k.Name {
				case "PackageURI", "PackageHash", "PackageSize":
				default:
					x.Add(k)
				}
			}
			if g, w := x.Canon(), it.m.indexNode().Canon(); g != w {
				c.Fail("C07", "a reader of the index finds another %s:%s", it.p.ID, diffText(g, w))
			}
			if w := pathComponent(it.m.Source) + "/" + it.p.ID; n.Get("PackageURI") != w {
				c.Fail("C07,C02", "a reader of the index finds the location %q, it is %q", n.Get("PackageURI"), w)
			}
		}
		checkAssets(c, root, as)
		c.End()
	})
}

func genAssets(t *rapid.T) map[string]*vh.Node {
	as := map[string]*vh.Node{}
	lf := func(n *vh.Node, name string) {
		for i, f := range genFields(t, name, false) {
			l := f.Lang
			if i == 0 && l == "" {
				l = "en"
			}
			n.Add(attr(vh.TextElem(name, f.Text), "xml:lang", l))
		}
	}
	if rapid.Bool().Draw(t, "dist") {
		d := vh.Elem("PISI", vh.TextElem("SourceName", genText(t, "sn", false)))
		lf(d, "Description")
		d.Add(vh.TextElem("Version", genText(t, "v", false)), vh.TextElem("Type", "main"), vh.TextElem("BinaryName", genText(t, "bn", true)))
		if obs := genList(t, "obs", 3); len(obs) > 0 {
			for i := range obs {
				obs[i] = "gone " + obs[i]
			}
			d.Add(list("Obsoletes", "Package", obs))
		} else {
			d.Add(vh.Elem("Obsoletes"))
		}
		as["distribution.xml"] = d
	}
	if rapid.Bool().Draw(t, "comps") {
		cs := vh.Elem("Components")
		for i := rapid.IntRange(0, 3).Draw(t, "nc"); i > 0; i-- {
			n := vh.Elem("Component", vh.TextElem("Name", fmt.Sprint(9-i)+genWord(t, "cn")))
			lf(n, "LocalName")
			lf(n, "Summary")
			lf(n, "Description")
			n.Add(vh.TextElem("Group", genText(t, "cg", false)), vh.Elem("Maintainer", vh.TextElem("Name", genText(t, "mn", false)), vh.TextElem("Email", genText(t, "me", false))))
			cs.Add(n)
		}
		as["components.xml"] = vh.Elem("PISI", cs)
	}
	if rapid.Bool().Draw(t, "groups") {
		gs := vh.Elem("Groups")
		for i := rapid.IntRange(0, 3).Draw(t, "ng"); i > 0; i-- {
			n := vh.Elem("Group", vh.TextElem("Name", fmt.Sprint(9-i)+genWord(t, "gn")))
			lf(n, "LocalName")
			n.Add(vh.TextElem("Icon", genText(t, "icon", false)))
			gs.Add(n)
		}
		as["groups.xml"] = vh.Elem("PISI", gs)
	}
	return as
}

func canonOf(ns []*vh.Node) string {
	var b strings.Builder
	for _, n := range ns {
		b.WriteString(n.Canon())
	}
	return b.String()
}

func checkAssets(c *vh.Case, root *vh.Node, as map[string]*vh.Node) {
	kids := func(f, l string) []*vh.Node {
		if n := as[f]; n != nil && n.First(l) != nil {
			return n.First(l).Kids
		}
		return nil
	}
	if g, w := canonOf(root.All("Component")), canonOf(kids("components.xml", "Components")); g != w {
		c.Fail("C07,C04", "a reader of the index finds other components:%s", diffText(g, w))
	}
	if g, w := canonOf(root.All("Group")), canonOf(kids("groups.xml", "Groups")); g != w {
		c.Fail("C07,C04", "a reader of the index finds other groups:%s", diffText(g, w))
	}
	if d := as["distribution.xml"]; d != nil {
		ns := root.All("Distribution")
		if len(ns) != 1 {
			c.Fail("C07,C04", "a reader of the index finds %d distributions", len(ns))
			return
		}
		if g, w := ns[0].Canon(), vh.Elem("Distribution").Add(d.Kids...).Canon(); g != w {
			c.Fail("C07,C04", "a reader of the index finds another distribution:%s", diffText(g, w))
		}
	}
}

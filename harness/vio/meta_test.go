//go:build go1.25

package vio

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unicode"

	"github.com/getsolus/ferryd/src/ferryd/core"
	"github.com/getsolus/ferryd/src/libeopkg"
	"github.com/getsolus/ferryd/src/zverif/rapid"
	"github.com/getsolus/ferryd/src/zverif/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// xmlRune says that XML can carry the character and that a parser hands it on.
func xmlRune(r rune) bool {
	return r == '\t' || r == '\n' || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

var spiceRunes = []rune("<>&\"']\u00a0\u00ad\u200b\u2028\u2029\ufeff\u0085©®™→≠😀🙂\U000e0b00\ue0b0\ue000\U0010fffd中日本語éßÅ\u0301İſ\u202e\t\n;#x-")

// genText draws text with everything that is awkward in XML and UTF-8. With
// long it also crosses the buffers of the writers involved.
func genText(t *rapid.T, label string, long bool) string {
	n := rapid.IntRange(0, 12).Draw(t, label+"n")
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 9).Draw(t, "piece"); {
		case k <= 3:
			b.WriteString([]string{"tool", "a b", "Library for ", "x", "1.0", "<b>", "&amp;", "]]>", "]]", "--", "%s", "\\n", "=\"", "<![CDATA[", "</PISI>", "&#65;", "&lt", "<!--", "?>", "'"}[rapid.IntRange(0, 19).Draw(t, "word")])
		case k <= 6:
			b.WriteRune(spiceRunes[rapid.IntRange(0, len(spiceRunes)-1).Draw(t, "spice")])
		case k == 7:
			b.WriteString(strings.Repeat(string(spiceRunes[rapid.IntRange(0, len(spiceRunes)-1).Draw(t, "rep")]), rapid.IntRange(1, 40).Draw(t, "times")))
		case k == 8:
			r := rune(rapid.IntRange(0x20, 0x10ffff).Draw(t, "rune"))
			if xmlRune(r) {
				b.WriteRune(r)
			}
		default:
			if long {
				pad := rapid.IntRange(1000, 5000).Draw(t, "pad")
				b.WriteString(strings.Repeat("p", pad))
				b.WriteString(strings.Repeat(string([]rune("é→中😀\u00ad")[pad%5]), pad%700))
			}
		}
	}
	// the escaper resolves references a reader finds in CDATA; literal ones are out
	return strings.ReplaceAll(b.String(), "&#x", "&x")
}

// genWord draws text without surrounding white space that is not empty.
func genWord(t *rapid.T, label string) string {
	s := strings.TrimSpace(genText(t, label, false))
	if s == "" {
		return "w"
	}
	return s
}

// plainName is s as something that can be part of a file name.
func plainName(s string) string {
	return "w" + strings.ReplaceAll(s, "/", "_")
}

type field struct{ Lang, Text string }

// model is a package as the builder of it means it.
type model struct {
	Name, Source                           string
	Summary, Desc                          []field
	IsA, PartOf                            string
	License                                []string
	Deps                                   []libeopkg.Dependency
	Conflicts, Replaces                    []string
	Comar                                  []libeopkg.COMAR
	PkgConfig, PkgConfig32                 []string
	HasProvides                            bool
	History                                []upd
	BuildHost, Dist, DistRel, Arch, Format string
	Size                                   int64
	Homepage, PName, PMail                 string
	LeadText                               string
}

type upd struct {
	Release                                   int
	Type, Date, Version, Comment, Name, Email string
	Req                                       []libeopkg.Action
}

var langs = []string{"", "en", "de", "fr", "zh_CN", "pt-BR", "sr@latin"}

func genFields(t *rapid.T, label string, long bool) []field {
	n := rapid.IntRange(0, 4).Draw(t, label+"langs")
	var fs []field
	for i := 0; i < n; i++ {
		fs = append(fs, field{langs[rapid.IntRange(0, len(langs)-1).Draw(t, "lang")], genText(t, label, long)})
	}
	return fs
}

func genList(t *rapid.T, label string, max int) []string {
	n := rapid.IntRange(0, max).Draw(t, label)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, genWord(t, label))
	}
	return r
}

var pkgNames = []string{"nano", "libfoo", "lib", "Zlib", "a", "x11-driver-video-nvidia", "0ad", "LibreOffice-common", "c++", "a.b_c", "größe", "été", "Ünal", "li", "libé", "日本", "dots.", "a b", "c d"}

// names of sources are used as they are, whatever they contain
var oddSources = []string{" nano", "nano ", "  lib", "lib ", "\u00a0lib", "lib..", "-x", "Lib", "LIBfoo", "liB x", "li b"}

func genModel(t *rapid.T, long bool) *model {
	m := &model{}
	m.Name = pkgNames[rapid.IntRange(0, len(pkgNames)-1).Draw(t, "name")]
	if rapid.IntRange(0, 4).Draw(t, "wildname") == 0 {
		m.Name = plainName(genWord(t, "nm"))
	}
	m.Source = pkgNames[rapid.IntRange(0, len(pkgNames)-1).Draw(t, "source")]
	if rapid.IntRange(0, 7).Draw(t, "oddsource") == 3 {
		m.Source = rapid.SampledFrom(oddSources).Draw(t, "oddsourcename")
	}
	m.Summary, m.Desc = genFields(t, "sum", long), genFields(t, "desc", long)
	if rapid.Bool().Draw(t, "isa") {
		m.IsA = genWord(t, "isa")
	}
	if rapid.Bool().Draw(t, "partof") {
		m.PartOf = genWord(t, "partof")
	}
	m.License = genList(t, "license", 3)
	for i := rapid.IntRange(0, 3).Draw(t, "deps"); i > 0; i-- {
		d := libeopkg.Dependency{Name: genWord(t, "dep")}
		d.ReleaseFrom, d.ReleaseTo, d.Release = genRel0(t), genRel0(t), genRel0(t)
		if rapid.Bool().Draw(t, "v") {
			d.VersionFrom, d.Version = genWord(t, "vf"), genWord(t, "vv")
		} else {
			d.VersionTo = genWord(t, "vt")
		}
		m.Deps = append(m.Deps, d)
	}
	m.Conflicts, m.Replaces = genList(t, "conflicts", 2), genList(t, "replaces", 2)
	m.PkgConfig, m.PkgConfig32 = genList(t, "pc", 2), genList(t, "pc32", 2)
	for i := rapid.IntRange(0, 2).Draw(t, "comar"); i > 0; i-- {
		c := libeopkg.COMAR{Value: genWord(t, "comar")}
		if rapid.Bool().Draw(t, "script") {
			c.Script = genWord(t, "script")
		}
		m.Comar = append(m.Comar, c)
	}
	m.HasProvides = len(m.Comar)+len(m.PkgConfig)+len(m.PkgConfig32) > 0
	n := rapid.IntRange(1, 4).Draw(t, "updates")
	for i := 0; i < n; i++ {
		u := upd{Release: genRel(t), Date: "2024-0" + fmt.Sprint(1+i) + "-02", Version: strings.ReplaceAll(genWord(t, "version"), "/", "_"), Comment: genText(t, "comment", long), Name: genText(t, "uname", false), Email: genText(t, "email", false)}
		if rapid.Bool().Draw(t, "type") {
			u.Type = []string{"security", "bug fix", "a\"<'&"}[rapid.IntRange(0, 2).Draw(t, "which")]
		}
		for k := rapid.IntRange(0, 2).Draw(t, "req"); k > 0; k-- {
			u.Req = append(u.Req, libeopkg.Action{Value: genWord(t, "act"), Package: []string{"", "kernel", "a&b"}[rapid.IntRange(0, 2).Draw(t, "actpkg")]})
		}
		m.History = append(m.History, u)
	}
	m.BuildHost, m.Dist = genText(t, "host", false), genText(t, "dist", false)
	m.DistRel = []string{"1", "2", "1.2.3"}[rapid.IntRange(0, 2).Draw(t, "distrel")]
	m.Arch = []string{"x86_64", "i686", "aarch64"}[rapid.IntRange(0, 2).Draw(t, "arch")]
	m.Format = "1.2"
	m.Size = rapid.Int64Range(0, 1<<62).Draw(t, "isize")
	if rapid.Bool().Draw(t, "home") {
		m.Homepage = genWord(t, "home")
	}
	m.PName, m.PMail = genText(t, "pname", false), genText(t, "pmail", false)
	return m
}

func genRel(t *rapid.T) int {
	if rapid.IntRange(0, 9).Draw(t, "bigrel") == 0 {
		return rapid.IntRange(1, 1<<31-1).Draw(t, "rel")
	}
	return rapid.IntRange(1, 120).Draw(t, "rel")
}

func genRel0(t *rapid.T) int {
	if rapid.Bool().Draw(t, "norel") {
		return 0
	}
	return genRel(t)
}

func attr(n *vh.Node, k, v string) *vh.Node {
	if v != "" {
		n.With(k, v)
	}
	return n
}

func num(n *vh.Node, k string, v int) *vh.Node {
	if v != 0 {
		n.With(k, fmt.Sprint(v))
	}
	return n
}

func list(name, item string, xs []string) *vh.Node {
	if len(xs) == 0 {
		return nil
	}
	n := vh.Elem(name)
	for _, x := range xs {
		n.Add(vh.TextElem(item, x))
	}
	return n
}

func opt(name, v string) *vh.Node {
	if v == "" {
		return nil
	}
	return vh.TextElem(name, v)
}

func (m *model) sourceNode() *vh.Node {
	return vh.Elem("Source").Add(vh.TextElem("Name", m.Source), opt("Homepage", m.Homepage),
		vh.Elem("Packager", vh.TextElem("Name", m.PName), vh.TextElem("Email", m.PMail)))
}

// node is the <Package> element.
func (m *model) node() *vh.Node {
	n := vh.Elem("Package", vh.TextElem("Name", m.Name))
	for _, f := range m.Summary {
		n.Add(attr(vh.TextElem("Summary", f.Text), "xml:lang", f.Lang))
	}
	for _, f := range m.Desc {
		n.Add(attr(vh.TextElem("Description", f.Text), "xml:lang", f.Lang))
	}
	n.Add(opt("IsA", m.IsA), opt("PartOf", m.PartOf))
	for _, l := range m.License {
		n.Add(vh.TextElem("License", l))
	}
	if len(m.Deps) > 0 {
		d := vh.Elem("RuntimeDependencies")
		for _, x := range m.Deps {
			e := vh.TextElem("Dependency", x.Name)
			num(num(num(e, "releaseFrom", x.ReleaseFrom), "releaseTo", x.ReleaseTo), "release", x.Release)
			attr(attr(attr(e, "versionFrom", x.VersionFrom), "versionTo", x.VersionTo), "version", x.Version)
			d.Add(e)
		}
		n.Add(d)
	}
	n.Add(list("Conflicts", "Package", m.Conflicts), list("Replaces", "Package", m.Replaces))
	if m.HasProvides {
		p := vh.Elem("Provides")
		for _, c := range m.Comar {
			p.Add(attr(vh.TextElem("COMAR", c.Value), "script", c.Script))
		}
		for _, x := range m.PkgConfig {
			p.Add(vh.TextElem("PkgConfig", x))
		}
		for _, x := range m.PkgConfig32 {
			p.Add(vh.TextElem("PkgConfig32", x))
		}
		n.Add(p)
	}
	h := vh.Elem("History")
	for _, u := range m.History {
		e := vh.Elem("Update", vh.TextElem("Date", u.Date), vh.TextElem("Version", u.Version), vh.TextElem("Comment", u.Comment),
			vh.TextElem("Name", u.Name), vh.TextElem("Email", u.Email)).With("release", fmt.Sprint(u.Release))
		attr(e, "type", u.Type)
		if len(u.Req) > 0 {
			r := vh.Elem("Requires")
			for _, a := range u.Req {
				r.Add(attr(vh.TextElem("Action", a.Value), "package", a.Package))
			}
			e.Add(r)
		}
		h.Add(e)
	}
	n.Add(h, vh.TextElem("BuildHost", m.BuildHost), vh.TextElem("Distribution", m.Dist), vh.TextElem("DistributionRelease", m.DistRel),
		vh.TextElem("Architecture", m.Arch), vh.TextElem("InstalledSize", fmt.Sprint(m.Size)), vh.TextElem("PackageFormat", m.Format), m.sourceNode())
	return n
}

func localised(fs []field) []libeopkg.LocalisedField {
	var r []libeopkg.LocalisedField
	for i, f := range fs {
		l := f.Lang
		if i == 0 && l == "" {
			l = "en"
		}
		r = append(r, libeopkg.LocalisedField{Value: strings.TrimSpace(f.Text), Lang: l})
	}
	return r
}

// indexNode is the <Package> element a client must find in an index, without
// what the repository adds.
func (m *model) indexNode() *vh.Node {
	c := *m
	c.Summary, c.Desc = nil, nil
	for _, f := range localised(m.Summary) {
		c.Summary = append(c.Summary, field{f.Lang, f.Value})
	}
	for _, f := range localised(m.Desc) {
		c.Desc = append(c.Desc, field{f.Lang, f.Value})
	}
	return c.node()
}

// want is the record that reading the package must give.
func (m *model) want() libeopkg.MetaPackage {
	w := libeopkg.MetaPackage{Name: m.Name, Summary: localised(m.Summary), Description: localised(m.Desc), IsA: m.IsA, PartOf: m.PartOf, License: m.License,
		BuildHost: m.BuildHost, Distribution: m.Dist, DistributionRelease: m.DistRel, Architecture: m.Arch, InstalledSize: m.Size, PackageFormat: m.Format}
	w.Source = m.wantSource()
	if len(m.Deps) > 0 {
		d := append([]libeopkg.Dependency(nil), m.Deps...)
		w.RuntimeDependencies = &d
	}
	if len(m.Conflicts) > 0 {
		d := append([]string(nil), m.Conflicts...)
		w.Conflicts = &d
	}
	if len(m.Replaces) > 0 {
		d := append([]string(nil), m.Replaces...)
		w.Replaces = &d
	}
	if m.HasProvides {
		w.Provides = &libeopkg.Provides{COMAR: m.Comar, PkgConfig: m.PkgConfig, PkgConfig32: m.PkgConfig32}
	}
	for _, u := range m.History {
		x := libeopkg.Update{Release: u.Release, Type: u.Type, Date: u.Date, Version: u.Version, Email: u.Email}
		x.Comment.Value, x.Name.Value = u.Comment, u.Name
		if len(u.Req) > 0 {
			r := append([]libeopkg.Action(nil), u.Req...)
			x.Requires = &r
		}
		w.History = append(w.History, x)
	}
	return w
}

func (m *model) wantSource() libeopkg.Source {
	return libeopkg.Source{Name: m.Source, Homepage: m.Homepage, Packager: libeopkg.Packager{Name: m.PName, Email: m.PMail}}
}

// renderer writes the same document in many ways.
type renderer struct {
	t     *rapid.T
	style int
}

func (r renderer) text(b *strings.Builder, s string, attr bool) {
	esc := func(c rune) string {
		switch c {
		case '<':
			return "&lt;"
		case '&':
			return "&amp;"
		case '>':
			return "&gt;"
		case '"':
			return "&quot;"
		case '\'':
			return "&apos;"
		}
		if attr && (c == '\t' || c == '\n') {
			return fmt.Sprintf("&#%d;", c)
		}
		if r.style&1 == 1 && c > 127 {
			return fmt.Sprintf("&#x%x;", c)
		}
		return string(c)
	}
	if !attr && r.style&2 == 2 && s != "" {
		b.WriteString("<![CDATA[" + strings.ReplaceAll(s, "]]>", "]]]]><![CDATA[>") + "]]>")
		return
	}
	for _, c := range s {
		b.WriteString(esc(c))
	}
}

func (r renderer) write(b *strings.Builder, n *vh.Node, ind string) {
	b.WriteString(ind + "<" + n.Name)
	for _, k := range vh.SortedKeys(n.Attrs) {
		b.WriteString(" " + k + "=\"")
		r.text(b, n.Attrs[k], true)
		b.WriteString("\"")
	}
	if len(n.Kids) == 0 && n.Text == "" && r.style&4 == 4 {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	if len(n.Kids) == 0 {
		r.text(b, n.Text, false)
	} else {
		kids := n.Kids
		if r.style&8 == 8 {
			// another order of differently named children means the same
			kids = append([]*vh.Node(nil), kids...)
			sort.SliceStable(kids, func(i, j int) bool { return kids[i].Name > kids[j].Name })
		}
		for _, k := range kids {
			if r.style&16 == 16 {
				b.WriteString("\n" + ind + "  <!-- " + k.Name + " <x> -->")
			}
			nl := "\n" + ind + "  "
			if r.style&32 == 32 {
				nl = ""
			}
			r.write(b, k, nl)
		}
		if r.style&64 == 64 {
			b.WriteString("<Unknown a=\"b\"><Name>no</Name></Unknown>")
		}
		b.WriteString("\n" + ind)
	}
	b.WriteString("</" + n.Name + ">")
}

// metadataXML is metadata.xml in one of the styles.
func (m *model) metadataXML(t *rapid.T) string {
	r := renderer{t, rapid.IntRange(0, 127).Draw(t, "style")}
	var b strings.Builder
	if r.style%3 == 0 {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	r.write(&b, vh.Elem("PISI", m.sourceNode(), m.node()), "")
	b.WriteString("\n")
	return b.String()
}

func (m *model) build(t *rapid.T, id string) *vh.Pkg {
	raw := m.metadataXML(t)
	sp := &vh.Spec{Name: m.Name, Source: m.Source, DistRel: m.DistRel, Arch: m.Arch, Raw: &raw, Meta: m.indexNode(), ID: id, Filler: raw}
	for _, u := range m.History {
		sp.History = append(sp.History, vh.Upd{Release: u.Release, Version: u.Version})
	}
	return sp.Build()
}

func norm(v any) string { return fmt.Sprintf("%+v", deref(reflect.ValueOf(v))) }

// deref replaces pointers by what they point to, and makes nil and empty alike.
func deref(v reflect.Value) any {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return "none"
		}
		return deref(v.Elem())
	case reflect.Struct:
		var b []string
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				b = append(b, fmt.Sprintf("%s=%v", v.Type().Field(i).Name, deref(v.Field(i))))
			}
		}
		return "{" + strings.Join(b, " ") + "}"
	case reflect.Slice:
		if v.Len() == 0 {
			return "none"
		}
		var b []string
		for i := 0; i < v.Len(); i++ {
			b = append(b, fmt.Sprint(deref(v.Index(i))))
		}
		return "[" + strings.Join(b, ", ") + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return v.Interface()
}

func diffText(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(s string) string { return s[max(0, min(len(s), i-60)):min(len(s), i+120)] }
	return fmt.Sprintf("\n got ...%s\nwant ...%s", cut(got), cut(want))
}

func interesting(m *model) bool {
	n := 0
	for _, s := range []string{m.node().String()} {
		for _, r := range s {
			if r > 127 && (unicode.IsSymbol(r) || unicode.IsSpace(r) || unicode.Is(unicode.C, r)) {
				n++
			}
		}
	}
	return n > 0
}

// pathComponent is where a package of that source is stored.
func pathComponent(src string) string {
	l := []rune(strings.ToLower(src))
	n := 1
	if len(l) > 3 && string(l[:3]) == "lib" {
		n = 4
	}
	return string(l[:n]) + "/" + string(l)
}

// TestRead is C36.
func TestRead(t *testing.T) {
	vh.SetRule("packages of random metadata (every field, up to 4 languages, awkward Unicode, several ways of writing the same XML) and file lists, read directly and through an import; non-trivial when the package has a dependency, several history entries or languages, or a file list")
	rapid.Check(t, func(rt *rapid.T) {
		c := vh.Begin(rt)
		defer c.Cleanup()
		long := rapid.IntRange(0, 7).Draw(rt, "long") == 0
		m := genModel(rt, long)
		files := genFiles(rt)
		id := rapid.SampledFrom([]string{"pkg-1-1-1-x86_64.eopkg", "größe-1-1-1-x86_64.eopkg", "a b.eopkg", "a&b-1.eopkg", "x.eopkg"}).Draw(rt, "id")
		p := m.buildWith(rt, id, files)
		c.Op("package %s: %s", id, cutStr(m.node().String(), 1500))
		c.Op("%d files", len(files))
		if len(m.Deps) > 0 || len(m.History) > 1 || len(m.Summary) > 1 || len(files) > 0 {
			c.Nontrivial()
		}
		if interesting(m) {
			c.Label("symbols")
		}
		path := p.WriteTo(filepath.Join(c.Dir(), "in"))
		checkRead(c, m, path, id, files)
		checkDerived(c, rt, m)
		checkStored(c, m, p, path)
		c.End()
	})
}

func cutStr(s string, n int) string {
	if len(s) > n {
		return strings.ToValidUTF8(s[:n], "") + "..."
	}
	return s
}

func checkRead(c *vh.Case, m *model, path, id string, files []fileSpec) {
	const tags = "C36"
	o := vh.Guard(func() error {
		pkg, err := libeopkg.Open(path)
		if err != nil {
			return err
		}
		defer pkg.Close()
		if err := pkg.ReadAll(); err != nil {
			return err
		}
		if pkg.ID != id || pkg.Path != path {
			c.Fail(tags, "the package %q at %q calls itself %q at %q", id, path, pkg.ID, pkg.Path)
		}
		if g, w := norm(pkg.Meta.Package), norm(m.want()); g != w {
			c.Fail(tags, "reading the package gives other metadata:%s", diffText(g, w))
		}
		if g, w := norm(pkg.Meta.Source), norm(m.wantSource()); g != w {
			c.Fail(tags, "reading the package gives another source:%s", diffText(g, w))
		}
		if len(pkg.Files.File) != len(files) {
			c.Fail(tags, "reading the package gives %d files of %d", len(pkg.Files.File), len(files))
			return nil
		}
		for i, f := range files {
			g := pkg.Files.File[i]
			w := f.want()
			w2 := *g
			if norm(w) != norm(w2) || g.IsDir() != (f.Hash == "") || uint32(g.FileMode()) != f.Mode {
				c.Fail(tags, "file %d is read as %s mode %o directory %v, written was %s mode %o", i, norm(w2), uint32(g.FileMode()), g.IsDir(), norm(w), f.Mode)
			}
		}
		return nil
	})
	if o.Err != nil || o.Broken() != "" {
		c.Fail(tags, "a proper package cannot be read: %v %s", o.Err, o.Broken())
	}
	c.CheckHeld("reading a package")
}

func metaFor(name, ver string, rel int, distrel, arch, dist string) *libeopkg.MetaPackage {
	return &libeopkg.MetaPackage{Name: name, Distribution: dist, DistributionRelease: distrel, Architecture: arch, History: []libeopkg.Update{{Release: rel, Version: ver}, {Release: rel + 7, Version: "later"}}}
}

func checkDerived(c *vh.Case, t *rapid.T, m *model) {
	const tags = "C36"
	mp := m.want()
	o := vh.Guard(func() error {
		if mp.GetRelease() != m.History[0].Release || mp.GetVersion() != m.History[0].Version {
			c.Fail(tags, "release %d version %q is taken for release %d version %q", m.History[0].Release, m.History[0].Version, mp.GetRelease(), mp.GetVersion())
		}
		if g, w := mp.GetPathComponent(), pathComponent(m.Source); g != w {
			c.Fail(tags+",C02", "packages of source %q are stored in %q, not in %q", m.Source, g, w)
		}
		mp.PackageURI = "a/b/c.eopkg"
		if mp.GetID() != "c.eopkg" {
			c.Fail(tags, "the package at a/b/c.eopkg has the id %q", mp.GetID())
		}
		pick := func(l string, xs ...string) string { return xs[rapid.IntRange(0, len(xs)-1).Draw(t, l)] }
		mk := func() *libeopkg.MetaPackage {
			return metaFor(pick("n", "nano", "nano", "nano", "nan"), pick("v", "1", "2"), rapid.IntRange(1, 12).Draw(t, "r"), pick("dr", "1", "1", "1", "2"), pick("ar", "x86_64", "x86_64", "x86_64", "i686"), pick("d", "Solus", "EvolveOS"))
		}
		a, b := mk(), mk()
		want := a.GetRelease() < b.GetRelease() && a.Name == b.Name && a.DistributionRelease == b.DistributionRelease && a.Architecture == b.Architecture
		if got := libeopkg.IsDeltaPossible(a, b); got != want {
			c.Fail(tags+",C19", "a delta from %+v to %+v is deemed possible: %v", a, b, got)
		}
		wn := fmt.Sprintf("%s-%d-%d-%s-%s.delta.eopkg", b.Name, a.GetRelease(), b.GetRelease(), b.DistributionRelease, b.Architecture)
		if got := libeopkg.ComputeDeltaName(a, b); got != wn {
			c.Fail(tags, "the delta is called %q, not %q", got, wn)
		}
		ps := libeopkg.PackageSet{}
		for i := 0; i < 6; i++ {
			ps = append(ps, metaFor("x", "1", rapid.IntRange(1, 300).Draw(t, "r"), "1", "x86_64", "Solus"))
		}
		sort.Sort(ps)
		for i := 1; i < len(ps); i++ {
			if ps[i].GetRelease() < ps[i-1].GetRelease() {
				c.Fail(tags+",C13", "release %d sorts before %d", ps[i-1].GetRelease(), ps[i].GetRelease())
			}
		}
		return nil
	})
	if o.Broken() != "" {
		c.Fail(tags, "%s", o.Broken())
	}
}

// checkStored imports the package and looks at the record of the pool.
func checkStored(c *vh.Case, m *model, p *vh.Pkg, path string) {
	const tags = "C36"
	base := filepath.Join(c.Dir(), "base")
	os.MkdirAll(base, 0o755)
	o := vh.Guard(func() error {
		mg, err := core.NewManager(base)
		if err != nil {
			return err
		}
		defer func() { mg.Close() }()
		if err := mg.CreateRepo("r"); err != nil {
			return err
		}
		if err := mg.AddPackages("r", []string{path}, false); err != nil {
			return err
		}
		mg.Close()
		if mg, err = core.NewManager(base); err != nil {
			return err
		}
		e, err := mg.GetPoolEntry(p.ID)
		if err != nil {
			return err
		}
		w := m.want()
		w.PackageURI = pathComponent(m.Source) + "/" + p.ID
		w.PackageSize = int64(len(p.Bytes))
		w.PackageHash = p.SHA1
		if g, w := norm(*e), norm(w); g != w {
			c.Fail(tags, "the pool records other metadata than the package has:%s", diffText(g, w))
		}
		metas, err := mg.GetPackages("r", m.Name)
		if err != nil {
			return err
		}
		if len(metas) != 1 || norm(*metas[0]) != norm(w) {
			c.Fail(tags, "the repository does not give the package as it is (%d found)", len(metas))
		}
		if b, err := os.ReadFile(filepath.Join(base, "repo", "r", w.PackageURI)); err != nil || string(b) != string(p.Bytes) {
			c.Fail(tags+",C02", "the package is not stored at its location %q: %v", w.PackageURI, err)
		}
		return nil
	})
	if o.Err != nil || o.Broken() != "" {
		c.Fail(tags, "a proper package cannot be imported: %v %s", o.Err, o.Broken())
	}
}

// fileSpec is one <File>.
type fileSpec struct {
	Path, Type, Hash, Permanent string
	Size                        int64
	UID, GID                    int
	Mode                        uint32
	ModeText                    string
}

func (f fileSpec) want() libeopkg.File {
	return libeopkg.File{Path: f.Path, Type: f.Type, Size: f.Size, UID: f.UID, GID: f.GID, Mode: f.ModeText, Hash: f.Hash, Permanent: f.Permanent}
}

func genFiles(t *rapid.T) []fileSpec {
	var fs []fileSpec
	for i := rapid.IntRange(0, 5).Draw(t, "nfiles"); i > 0; i-- {
		f := fileSpec{Path: "usr/" + genWord(t, "path"), Type: []string{"data", "executable", "config", "library"}[rapid.IntRange(0, 3).Draw(t, "ftype")]}
		f.Mode = uint32(rapid.IntRange(0, 0o7777).Draw(t, "mode"))
		f.ModeText = fmt.Sprintf([]string{"%o", "0%o", "00%o"}[rapid.IntRange(0, 2).Draw(t, "zeros")], f.Mode)
		if rapid.IntRange(0, 3).Draw(t, "dir") > 0 {
			f.Hash = fmt.Sprintf("%040x", rapid.Uint64().Draw(t, "hash"))
			f.Size = rapid.Int64Range(0, 1<<50).Draw(t, "size")
		}
		f.UID, f.GID = rapid.IntRange(0, 70000).Draw(t, "uid"), rapid.IntRange(0, 3).Draw(t, "gid")
		if rapid.IntRange(0, 5).Draw(t, "perm") == 0 {
			f.Permanent = "true"
		}
		fs = append(fs, f)
	}
	return fs
}

func (m *model) buildWith(t *rapid.T, id string, files []fileSpec) *vh.Pkg {
	root := vh.Elem("Files")
	for _, f := range files {
		n := vh.Elem("File", vh.TextElem("Path", f.Path), vh.TextElem("Type", f.Type))
		if f.Size > 0 {
			n.Add(vh.TextElem("Size", fmt.Sprint(f.Size)))
		}
		n.Add(vh.TextElem("Uid", fmt.Sprint(f.UID)), vh.TextElem("Gid", fmt.Sprint(f.GID)), vh.TextElem("Mode", f.ModeText), opt("Hash", f.Hash), opt("Permanent", f.Permanent))
		root.Add(n)
	}
	var b strings.Builder
	renderer{t, rapid.IntRange(0, 63).Draw(t, "fstyle")}.write(&b, root, "")
	raw, fx := m.metadataXML(t), b.String()
	sp := &vh.Spec{Name: m.Name, Source: m.Source, DistRel: m.DistRel, Arch: m.Arch, Raw: &raw, FilesRaw: &fx, Meta: m.indexNode(), ID: id, Filler: "x"}
	for _, u := range m.History {
		sp.History = append(sp.History, vh.Upd{Release: u.Release, Version: u.Version})
	}
	return sp.Build()
}

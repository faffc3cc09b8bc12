//go:build go1.25

package vh

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/getsolus/ferryd/src/zverif/vxz"
)

// Upd is one history entry, newest first in a Spec.
type Upd struct {
	Release int
	Version string
	Comment string
	Name    string
	Type    string
}

// FileSpec is one path of a package payload.
type FileSpec struct {
	Path string
	Dir  bool
	Link string // symlink target
	Data string
	Mode int64
}

// ZipEntry is a further entry of a package archive.
type ZipEntry struct {
	Name string
	Data []byte
}

// Spec describes a package to build.
type Spec struct {
	Name    string
	Source  string
	DistRel string
	Arch    string
	History []Upd
	Summary string
	Desc    string
	Files   []FileSpec
	Filler  string // makes two builds differ
	Extra   []*Node
	// Meta, when set, replaces the <Package> element.
	Meta *Node
	// Raw, when set, replaces metadata.xml.
	Raw *string
	// FilesRaw, when set, replaces files.xml.
	FilesRaw  *string
	SourceExt []*Node
	IDSuffix  string
	NoInstall bool
	Deflate   bool
	Entries   []ZipEntry // further entries of the archive
	ID        string     // overrides the file name
}

// Release is the newest release.
func (s *Spec) Release() int { return s.History[0].Release }

// Pkg is a built package.
type Pkg struct {
	ID      string
	Name    string
	Source  string
	Release int
	Version string
	Bytes   []byte
	SHA1    string
	Meta    *Node // the <Package> element as a client must see it in an index
	Dir     string
	Spec    *Spec
}

// URI is the advertised path below the repository.
func (p *Pkg) URI() string { return p.Dir + "/" + p.ID }

// FileName is the conventional file name of the package.
func (s *Spec) FileName() string {
	if s.ID != "" {
		return s.ID
	}
	return fmt.Sprintf("%s-%s-%d-%s-%s%s.eopkg", s.Name, s.History[0].Version, s.Release(), s.DistRel, s.Arch, s.IDSuffix)
}

// PathComponent is the documented directory for a source name.
func PathComponent(source string) string {
	l := strings.ToLower(source)
	if strings.HasPrefix(l, "lib") && len(l) > 3 {
		return l[:4] + "/" + l
	}
	return l[:1] + "/" + l
}

func (s *Spec) sourceNode() *Node {
	n := Elem("Source", TextElem("Name", s.Source),
		Elem("Packager", TextElem("Name", "Jane Doe"), TextElem("Email", "jane@example.com")))
	return n.Add(s.SourceExt...)
}

// PackageNode is the <Package> element of metadata.xml.
func (s *Spec) PackageNode() *Node {
	if s.Meta != nil {
		return s.Meta
	}
	hist := Elem("History")
	for _, u := range s.History {
		un := Elem("Update", TextElem("Date", "2024-01-02"), TextElem("Version", u.Version),
			TextElem("Comment", u.Comment), TextElem("Name", u.Name), TextElem("Email", "j@example.com")).With("release", strconv.Itoa(u.Release))
		if u.Type != "" {
			un.With("type", u.Type)
		}
		hist.Add(un)
	}
	n := Elem("Package", TextElem("Name", s.Name),
		TextElem("Summary", s.Summary).With("xml:lang", "en"),
		TextElem("Description", s.Desc).With("xml:lang", "en"))
	n.Add(s.Extra...)
	n.Add(TextElem("License", "GPL-2.0"), hist, TextElem("BuildHost", "bh"), TextElem("Distribution", "Solus"),
		TextElem("DistributionRelease", s.DistRel), TextElem("Architecture", s.Arch),
		TextElem("InstalledSize", "4096"), TextElem("PackageFormat", "1.2"), s.sourceNode())
	return n
}

var cdataLeaf = map[string]bool{"Comment": true}

// Build produces the .eopkg bytes.
func (s *Spec) Build() *Pkg {
	pn := s.PackageNode()
	root := Elem("PISI", s.sourceNode(), pn)
	var mb strings.Builder
	root.Write(&mb, cdataLeaf)
	meta := mb.String()
	if s.Raw != nil {
		meta = *s.Raw
	}
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	add := func(name string, data []byte) {
		h := &zip.FileHeader{Name: name, Method: zip.Store}
		if s.Deflate {
			h.Method = zip.Deflate
		}
		h.Modified = time.Unix(1700000000, 0)
		w, err := zw.CreateHeader(h)
		if err != nil {
			Abort("zip: %v", err)
		}
		w.Write(data)
	}
	add("metadata.xml", []byte(meta))
	if s.FilesRaw != nil {
		add("files.xml", []byte(*s.FilesRaw))
	} else {
		add("files.xml", []byte(s.filesXML()))
	}
	if !s.NoInstall {
		add("install.tar.xz", vxz.XZ(s.tar()))
	}
	for _, e := range s.Entries {
		add(e.Name, e.Data)
	}
	if s.Filler != "" {
		add("comar/filler", []byte(s.Filler))
	}
	if err := zw.Close(); err != nil {
		Abort("zip: %v", err)
	}
	sum := sha1.Sum(buf.Bytes())
	p := &Pkg{ID: s.FileName(), Name: s.Name, Source: s.Source, Bytes: buf.Bytes(), SHA1: hex.EncodeToString(sum[:]), Meta: pn, Spec: s}
	if len(s.History) > 0 {
		p.Release, p.Version = s.Release(), s.History[0].Version
	}
	if s.Source != "" {
		p.Dir = PathComponent(s.Source)
	}
	return p
}

// FileHash is the files.xml hash of a payload entry.
func (f FileSpec) FileHash() string {
	if f.Dir {
		return ""
	}
	d := f.Data
	if f.Link != "" {
		d = f.Link
	}
	sum := sha1.Sum([]byte(d))
	return hex.EncodeToString(sum[:])
}

func (s *Spec) filesXML() string {
	root := Elem("Files")
	for _, f := range s.Files {
		n := Elem("File", TextElem("Path", f.Path), TextElem("Type", "data"))
		if !f.Dir {
			n.Add(TextElem("Size", strconv.Itoa(len(f.Data))))
		}
		n.Add(TextElem("Uid", "0"), TextElem("Gid", "0"), TextElem("Mode", fmt.Sprintf("0%o", f.mode())))
		if h := f.FileHash(); h != "" {
			n.Add(TextElem("Hash", h))
		}
		root.Add(n)
	}
	if len(s.Files) == 0 {
		return "<Files>\n</Files>\n"
	}
	return root.String()
}

func (f FileSpec) mode() int64 {
	if f.Mode != 0 {
		return f.Mode
	}
	if f.Dir {
		return 0o755
	}
	return 0o644
}

func (s *Spec) tar() []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	for _, f := range s.Files {
		h := &tar.Header{Name: f.Path, Mode: f.mode(), ModTime: time.Unix(1700000000, 0), Format: tar.FormatGNU}
		switch {
		case f.Dir:
			h.Typeflag = tar.TypeDir
			h.Name = strings.TrimSuffix(f.Path, "/") + "/"
		case f.Link != "":
			h.Typeflag = tar.TypeSymlink
			h.Linkname = f.Link
		default:
			h.Typeflag = tar.TypeReg
			h.Size = int64(len(f.Data))
		}
		if err := tw.WriteHeader(h); err != nil {
			Abort("tar: %v", err)
		}
		if h.Typeflag == tar.TypeReg {
			tw.Write([]byte(f.Data))
		}
	}
	tw.Close()
	return b.Bytes()
}

// WriteTo stores the package under dir and returns its path.
func (p *Pkg) WriteTo(dir string) string {
	path := filepath.Join(dir, p.ID)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		Abort("mkdir: %v", err)
	}
	os.Remove(path)
	if err := os.WriteFile(path, p.Bytes, 0o644); err != nil {
		Abort("write: %v", err)
	}
	return path
}

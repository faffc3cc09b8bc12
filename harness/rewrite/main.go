// rewrite makes copies of the sources in which file-system calls go through
// package vos, and prints what they replace: rewrite REPO OUTDIR.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// what is called instead, per import path
var calls = map[string]map[string]string{
	"os": same("Create", "OpenFile", "Open", "ReadFile", "WriteFile", "ReadDir", "Stat", "Lstat", "Remove", "RemoveAll", "Rename", "Link", "Symlink",
		"Mkdir", "MkdirAll", "Chmod", "Chtimes", "Chown", "Truncate", "MkdirTemp", "CreateTemp", "Getpid", "FindProcess"),
	"syscall":                             same("Flock"),
	"io/ioutil":                           {"ReadFile": "ReadFile", "WriteFile": "WriteFile", "ReadDir": "IoutilReadDir", "TempDir": "TempDir", "TempFile": "TempFile"},
	"os/exec":                             same("Command", "CommandContext"),
	"github.com/syndtr/goleveldb/leveldb": {"OpenFile": "OpenLevelDB"},
}

// keeps an import used
var keep = map[string]string{"os": "ErrNotExist", "io/ioutil": "Discard", "os/exec": "ErrNotFound", "syscall": "EPERM", "github.com/syndtr/goleveldb/leveldb": "ErrNotFound"}

func same(ns ...string) map[string]string {
	m := map[string]string{}
	for _, n := range ns {
		m[n] = n
	}
	return m
}

const vos = "github.com/getsolus/ferryd/src/zverif/vos"

func main() {
	repo, out := os.Args[1], os.Args[2]
	over := map[string]string{}
	n := 0
	for _, d := range []string{"src/ferryd/core", "src/ferryd/jobs", "src/libeopkg", "src/libdb", "src/ferryd"} {
		files, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") || strings.HasPrefix(filepath.Base(f), "zz_verif") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				fail(err)
			}
			res, changed, err := rewrite(f, src)
			if err != nil {
				fail(err)
			}
			if !changed {
				continue
			}
			n++
			o := filepath.Join(out, fmt.Sprintf("%d_%s", n, filepath.Base(f)))
			if err := os.WriteFile(o, res, 0o644); err != nil {
				fail(err)
			}
			over[f] = o
		}
	}
	b, _ := json.Marshal(over)
	fmt.Println(string(b))
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(1)
}

type edit struct {
	at, end int
	text    string
}

func rewrite(name string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	local := map[string]string{} // name in the file -> import path
	for _, im := range file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if calls[p] == nil {
			continue
		}
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		if n == "." || n == "_" {
			continue
		}
		local[n] = p
	}
	var edits []edit
	used := map[string]bool{}
	ast.Inspect(file, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Obj != nil {
			return true
		}
		p, ok := local[id.Name]
		if !ok {
			return true
		}
		if to, ok := calls[p][s.Sel.Name]; ok {
			a, b := fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset
			edits = append(edits, edit{a, b, "zzvos." + to})
			used[id.Name] = true
		}
		return true
	})
	if len(edits) == 0 {
		return nil, false, nil
	}
	at := fset.Position(file.Name.End()).Offset
	edits = append(edits, edit{at, at, "; import zzvos " + strconv.Quote(vos)})
	tail := "\n"
	var ns []string
	for n := range used {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		tail += "var _ = " + n + "." + keep[local[n]] + "\n"
	}
	edits = append(edits, edit{len(src), len(src), tail})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var out []byte
	pos := 0
	for _, e := range edits {
		out = append(append(out, src[pos:e.at]...), e.text...)
		pos = e.end
	}
	return append(out, src[pos:]...), true, nil
}

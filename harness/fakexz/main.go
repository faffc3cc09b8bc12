//go:build go1.25

// fakexz stands in for xz and zstd in the checks that regenerate indexes
// thousands of times: it writes the same container formats without
// compressing (40 times faster), keeps the real tools' rules about existing
// outputs and originals, and hands any other use to the real tool.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/getsolus/ferryd/src/zverif/vxz"
)

func real(name string) {
	self, _ := os.Executable()
	for _, d := range filepath.SplitList(os.Getenv("PATH")) {
		p := filepath.Join(d, name)
		if r, err := filepath.EvalSymlinks(p); err == nil && r != self && filepath.Base(r) != "fakexz" {
			syscall.Exec(p, append([]string{name}, os.Args[1:]...), os.Environ())
		}
	}
	fmt.Fprintln(os.Stderr, name+": not found")
	os.Exit(127)
}

// decompress does what unxz does for containers of package vxz.
func decompress(file string, keep bool) {
	plain := strings.TrimSuffix(file, ".xz")
	data, err := os.ReadFile(file)
	if err != nil || plain == file {
		real("unxz")
	}
	out, ok := vxz.Unxz(data)
	if !ok {
		real("unxz")
	}
	f, err := os.OpenFile(plain, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "unxz:", err)
		os.Exit(1)
	}
	if _, err := f.Write(out); err != nil {
		os.Remove(plain)
		os.Exit(1)
	}
	f.Close()
	if !keep {
		os.Remove(file)
	}
	os.Exit(0)
}

func main() {
	name := filepath.Base(os.Args[0])
	keep := name == "zstd"
	force := false
	file := ""
	for i := 1; i < len(os.Args); i++ {
		a := os.Args[i]
		switch {
		case a == "-k" || a == "--keep":
			keep = true
		case a == "-f" || a == "--force":
			force = true
		case a == "--rm" && name == "zstd":
			keep = false
		case a == "-q" || a == "-qq" || a == "--quiet":
		case a == "-T":
			i++
		case strings.HasPrefix(a, "-T"):
		case len(a) == 2 && a[0] == '-' && a[1] >= '0' && a[1] <= '9':
		case strings.HasPrefix(a, "-"):
			real(name)
		case file != "":
			real(name)
		default:
			file = a
		}
	}
	ext := map[string]string{"xz": ".xz", "zstd": ".zst"}[name]
	if name == "unxz" {
		decompress(file, keep)
	}
	if ext == "" || file == "" || strings.HasSuffix(file, ext) {
		real(name)
	}
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var out []byte
	if name == "xz" {
		out = vxz.XZ(data)
	} else {
		out = vxz.Zstd(data)
	}
	die := os.Getenv("FAKEXZ_DIE") != "" // killed halfway
	if die {
		out = out[:len(out)/2]
	}
	mode := os.O_WRONLY | os.O_CREATE | os.O_EXCL
	if force {
		os.Remove(file + ext)
	}
	f, err := os.OpenFile(file+ext, mode, 0o600)
	if err != nil {
		fmt.Fprintln(os.Stderr, name+":", err)
		os.Exit(1)
	}
	if fi, err := os.Stat(file); err == nil {
		f.Chmod(fi.Mode().Perm()) // as the real ones do
	}
	if _, err := f.Write(out); err != nil {
		os.Remove(file + ext)
		os.Exit(1)
	}
	f.Close()
	if die {
		os.Exit(137)
	}
	if !keep {
		os.Remove(file)
	}
}

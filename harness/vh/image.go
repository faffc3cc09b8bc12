//go:build go1.25

package vh

import (
	"io"
	"os"
	"path/filepath"
	"reflect"
	"time"
)

// DirSizes are the sizes of the files of a directory.
func DirSizes(dir string) map[string]int64 {
	out := map[string]int64{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if fi, err := e.Info(); err == nil && fi.Mode().IsRegular() {
			out[e.Name()] = fi.Size()
		}
	}
	return out
}

// Image copies the database directory, with the files grown since before cut to size.
func Image(src, dst string, cut map[string]int64) {
	for try := 0; ; try++ {
		os.RemoveAll(dst)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			Abort("%v", err)
		}
		// tables are merged in the background: the image has to be of one moment
		a, ca := DirSizes(src), current(src)
		err := copyImage(src, dst, cut)
		if err == nil && reflect.DeepEqual(a, DirSizes(src)) && ca == current(src) {
			return
		}
		if try > 200 {
			Abort("no stable image: %v", err)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func current(dir string) string {
	b, _ := os.ReadFile(filepath.Join(dir, "CURRENT"))
	return string(b)
}

func copyImage(src, dst string, cut map[string]int64) error {
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range es {
		if e.Name() == "LOCK" || e.IsDir() {
			continue
		}
		in, err := os.Open(filepath.Join(src, e.Name()))
		if err != nil {
			return err
		}
		out, err := os.Create(filepath.Join(dst, e.Name()))
		if err != nil {
			return err
		}
		var r io.Reader = in
		if n, ok := cut[e.Name()]; ok {
			r = io.LimitReader(in, n)
		}
		if _, err := io.Copy(out, r); err != nil {
			return err
		}
		in.Close()
		out.Close()
	}
	return nil
}

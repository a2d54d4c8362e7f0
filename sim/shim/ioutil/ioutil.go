//go:build go1.25

package ioutil

import (
	"io/fs"

	"github.com/gostor/gotgt/zsim/shim/os"
)

func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error { return os.WriteFile(n, b, p) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func ReadDir(n string) (out []fs.FileInfo, err error) {
	es, err := os.ReadDir(n)
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

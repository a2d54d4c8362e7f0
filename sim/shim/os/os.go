//go:build go1.25

// Package os replaces os in the instrumented daemon: no call reaches the real
// file system or process.
package os

import (
	"io"
	"io/fs"
	real "os"
	"path/filepath"
	"sort"
	"strconv"
	"syscall"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simdisk"
)

// File is a file of the simulated disk.
type File = simdisk.File

type sink struct{}

func (sink) Write(b []byte) (int, error) {
	if t := rt.Cur(); t != nil && t.Proc.Out != nil {
		return t.Proc.Out.Write(b)
	}
	return len(b), nil
}

type discard struct{}

func (discard) Write(b []byte) (int, error) { return len(b), nil }

var (
	Stdin  io.Reader = nil
	Stdout io.Writer = sink{}
	Stderr io.Writer = discard{}
	Args             = []string{"gotgt"}
)

func Exit(code int) { rt.Exit(code) }
func Getenv(k string) string {
	if rt.S == nil {
		return ""
	}
	return rt.S.Env[k]
}
func LookupEnv(k string) (string, bool) {
	if rt.S == nil {
		return "", false
	}
	v, ok := rt.S.Env[k]
	return v, ok
}
func Setenv(k, v string) error {
	if rt.S != nil {
		rt.S.Env[k] = v
	}
	return nil
}
func Hostname() (string, error)    { return "simhost", nil }
func UserHomeDir() (string, error) { return "/root", nil }
func Getwd() (string, error)       { return "/cwd", nil }
func TempDir() string              { return "/tmp" }
func Executable() (string, error)  { return "/usr/bin/gotgt", nil }
func OpenFile(n string, flag int, perm fs.FileMode) (*File, error) {
	return simdisk.D.Open(n, flag, perm)
}
func Open(n string) (*File, error) { return simdisk.D.Open(n, real.O_RDONLY, 0) }
func Create(n string) (*File, error) {
	return simdisk.D.Open(n, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0o666)
}
func Stat(n string) (fs.FileInfo, error)     { return simdisk.D.Stat(n) }
func Lstat(n string) (fs.FileInfo, error)    { return simdisk.D.Stat(n) }
func MkdirAll(n string, _ fs.FileMode) error { return simdisk.D.MkdirAll(n) }
func Mkdir(n string, _ fs.FileMode) error {
	if simdisk.D.Exists(n) || simdisk.D.IsDir(n) {
		return &fs.PathError{Op: "mkdir", Path: n, Err: syscall.EEXIST}
	}
	if !simdisk.D.IsDir(filepath.Dir(n)) {
		return &fs.PathError{Op: "mkdir", Path: n, Err: syscall.ENOENT}
	}
	return simdisk.D.MkdirAll(n)
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for i := 0; ; i++ {
		n := dir + "/" + replaceStar(pattern, i)
		if !simdisk.D.Exists(n) && !simdisk.D.IsDir(n) {
			return n, simdisk.D.MkdirAll(n)
		}
	}
}
func RemoveAll(n string) error                { return simdisk.D.RemoveAll(n) }
func Link(a, b string) error                  { return simdisk.D.Link(a, b) }
func ReadDir(n string) ([]fs.DirEntry, error) { return simdisk.D.ReadDir(n) }
func SameFile(a, b fs.FileInfo) bool          { return simdisk.SameFile(a, b) }
func Readlink(n string) (string, error) {
	if _, err := simdisk.D.Stat(n); err != nil {
		return "", err
	}
	return "", &fs.PathError{Op: "readlink", Path: n, Err: syscall.EINVAL}
}
func Symlink(a, b string) error {
	return &real.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Chtimes(n string, _, _ time.Time) error { return exists("chtimes", n) }
func Lchown(n string, _, _ int) error        { return exists("lchown", n) }
func exists(op, n string) error {
	if !simdisk.D.Exists(n) && !simdisk.D.IsDir(n) {
		return &fs.PathError{Op: op, Path: n, Err: syscall.ENOENT}
	}
	return nil
}
func Unsetenv(k string) error {
	if rt.S != nil {
		delete(rt.S.Env, k)
	}
	return nil
}
func Clearenv() {
	if rt.S != nil {
		rt.S.Env = map[string]string{}
	}
}
func Environ() (out []string) {
	if rt.S != nil {
		for k, v := range rt.S.Env {
			out = append(out, k+"="+v)
		}
	}
	sort.Strings(out)
	return out
}
func ExpandEnv(s string) string      { return real.Expand(s, Getenv) }
func UserConfigDir() (string, error) { return "/root/.config", nil }
func UserCacheDir() (string, error)  { return "/root/.cache", nil }
func Getpid() int                    { return 4242 }
func Getppid() int                   { return 1 }
func Getuid() int                    { return 0 }
func Geteuid() int                   { return 0 }
func Getgid() int                    { return 0 }
func Getegid() int                   { return 0 }
func Getpagesize() int               { return 4096 }
func Rename(a, b string) error       { return simdisk.D.Rename(a, b) }
func Remove(n string) error          { return simdisk.D.Remove(n) }
func Truncate(n string, size int64) error {
	f, err := OpenFile(n, real.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
func ReadFile(n string) ([]byte, error) {
	f, err := Open(n)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}
func WriteFile(n string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(n, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	for i := 0; ; i++ {
		n := dir + "/" + replaceStar(pattern, i) // deterministic names
		f, err := OpenFile(n, real.O_RDWR|real.O_CREATE|real.O_EXCL, 0o600)
		if err == nil || !real.IsExist(err) {
			return f, err
		}
	}
}
func replaceStar(p string, i int) string {
	s := strconv.Itoa(1000 + i)
	for k := 0; k < len(p); k++ {
		if p[k] == '*' {
			return p[:k] + s + p[k+1:]
		}
	}
	return p + s
}
func Chmod(n string, m fs.FileMode) error { return simdisk.D.Chmod(n, m) }
func Chown(n string, _, _ int) error      { return exists("chown", n) }

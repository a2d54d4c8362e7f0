//go:build go1.25

// Package filepath replaces the part of path/filepath that looks at the file
// system.
package filepath

import (
	"io/fs"
	real "path/filepath"
	"syscall"

	"github.com/gostor/gotgt/zsim/simdisk"
)

func Abs(p string) (string, error) {
	if real.IsAbs(p) {
		return real.Clean(p), nil
	}
	return real.Join("/cwd", p), nil
}

// EvalSymlinks finds no links: the simulated disk has none.
func EvalSymlinks(p string) (string, error) {
	if !simdisk.D.Exists(p) && !simdisk.D.IsDir(p) {
		return "", &fs.PathError{Op: "lstat", Path: p, Err: syscall.ENOENT}
	}
	return real.Clean(p), nil
}

func Glob(pattern string) (out []string, err error) {
	if _, err := real.Match(pattern, ""); err != nil {
		return nil, err
	}
	for _, p := range simdisk.D.List() {
		if ok, _ := real.Match(pattern, p); ok {
			out = append(out, p)
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	st, err := simdisk.D.Stat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, fs.FileInfoToDirEntry(st), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := simdisk.D.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walk(real.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn real.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}

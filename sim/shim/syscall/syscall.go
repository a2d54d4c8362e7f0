//go:build go1.25

// Package syscall replaces syscall in the instrumented daemon.
package syscall

import (
	"errors"
	"io"
	real "syscall"

	"github.com/gostor/gotgt/zsim/rt"
	"github.com/gostor/gotgt/zsim/simdisk"
)

func errno(err error) error {
	if err == nil {
		return nil
	}
	if e, ok := err.(real.Errno); ok {
		return e
	}
	return real.EIO
}

func Fdatasync(fd int) error {
	f := simdisk.D.ByFd(fd)
	if f == nil {
		return real.EBADF
	}
	return errno(f.SyncKind("sync"))
}
func Fsync(fd int) error { return Fdatasync(fd) }
func Sync()              { rt.NotSupported("syscall.Sync") }

// Syscall6 knows fadvise64 and pread/pwrite-free numbers only.
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err real.Errno) {
	switch trap {
	case real.SYS_FADVISE64:
		f := simdisk.D.ByFd(int(a1))
		if f == nil {
			return ^uintptr(0), 0, real.EBADF
		}
		if int64(a3) < 0 || a4 > 5 {
			return ^uintptr(0), 0, real.EINVAL
		}
		if e := f.Advise(); e != nil {
			return ^uintptr(0), 0, errno(e).(real.Errno)
		}
		return 0, 0, 0
	}
	return Syscall(trap, a1, a2, a3)
}

func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err real.Errno) {
	switch trap {
	case real.SYS_FDATASYNC, real.SYS_FSYNC:
		if e := Fdatasync(int(a1)); e != nil {
			return ^uintptr(0), 0, e.(real.Errno)
		}
		return 0, 0, 0
	}
	rt.NotSupported("system call")
	return 0, 0, real.ENOSYS
}

// io turns the result of a file operation into that of a system call.
func iores(n int, err error) (int, error) {
	if err == nil || err == io.EOF {
		return n, nil
	}
	if n > 0 {
		return n, nil
	}
	var e real.Errno
	if errors.As(err, &e) {
		return -1, e
	}
	return -1, real.EBADF
}

func Pread(fd int, p []byte, off int64) (int, error) {
	return iores(simdisk.D.ByFd(fd).ReadAt(p, off))
}
func Pwrite(fd int, p []byte, off int64) (int, error) {
	return iores(simdisk.D.ByFd(fd).WriteAt(p, off))
}
func Ftruncate(fd int, n int64) error {
	_, err := iores(0, simdisk.D.ByFd(fd).Truncate(n))
	return err
}
func Getpid() int      { return 4242 }
func Getpagesize() int { return 4096 }

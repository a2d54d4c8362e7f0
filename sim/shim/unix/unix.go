//go:build go1.25

// Package unix replaces the calls of golang.org/x/sys/unix which the daemon's
// storage could use.
package unix

import (
	real "syscall"

	"github.com/gostor/gotgt/zsim/shim/syscall"
	"github.com/gostor/gotgt/zsim/simdisk"
)

func Fdatasync(fd int) error { return syscall.Fdatasync(fd) }
func Fsync(fd int) error     { return syscall.Fsync(fd) }
func Fadvise(fd int, offset, length int64, advice int) error {
	f := simdisk.D.ByFd(fd)
	if f == nil {
		return real.EBADF
	}
	if length < 0 || advice < 0 || advice > 5 {
		return real.EINVAL
	}
	return f.Advise()
}
func Pread(fd int, p []byte, off int64) (int, error)  { return syscall.Pread(fd, p, off) }
func Pwrite(fd int, p []byte, off int64) (int, error) { return syscall.Pwrite(fd, p, off) }
func Ftruncate(fd int, n int64) error                 { return syscall.Ftruncate(fd, n) }
func Getpid() int                                     { return 4242 }
func Getpagesize() int                                { return 4096 }
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err real.Errno) {
	return syscall.Syscall(trap, a1, a2, a3)
}
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err real.Errno) {
	return syscall.Syscall6(trap, a1, a2, a3, a4, a5, a6)
}

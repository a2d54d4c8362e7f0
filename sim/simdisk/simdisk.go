//go:build go1.25

// Package simdisk is the simulated file system of the daemon's host: a page
// cache in front of a disk that holds, for every sector, the last synced
// content and all later versions, any of which may be what a power loss
// leaves behind.
package simdisk

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
)

const Sector = 512

// Op is one operation on a file, as the fault plan sees it.
type Op struct {
	Kind string // open read write sync fsync advise trunc close rename stat
	Path string
	Off  int64
	Len  int
	N    int // ordinal of this kind on this file
}

// Fault is what happens to an operation.
type Fault struct {
	Err   error
	Part  int   // bytes that take effect before the error (reads and writes)
	Delay int64 // virtual ns before the operation
	Lose  bool  // a failing sync drops the dirty data (it never becomes durable)
	Short bool  // return Part with the error
}

type inode struct {
	data    []byte
	mode    fs.FileMode
	durable []byte             // content after the last completed sync
	pend    map[int64][][]byte // versions of sectors written since
	sizes   []int64            // sizes since the last sync
	durSize int64
	nlink   int
	metaDur bool             // the directory entry is durable
	sparse  map[int64][]byte // pages of a sparse file (no durability model)
	size    int64            // of a sparse file
}

func (i *inode) length() int64 {
	if i.sparse != nil {
		return i.size
	}
	return int64(len(i.data))
}

const spPage = 65536

// copyOut reads from the file's content.
func (i *inode) copyOut(b []byte, off int64) int {
	if i.sparse == nil {
		return copy(b, i.data[off:])
	}
	n := 0
	for n < len(b) && off < i.size {
		k := int(min(int64(len(b)-n), spPage-off%spPage, i.size-off))
		if pg := i.sparse[off/spPage]; pg != nil {
			copy(b[n:n+k], pg[off%spPage:])
		} else {
			clear(b[n : n+k])
		}
		n += k
		off += int64(k)
	}
	return n
}

// PutSparse installs a file of the given size which holds zeros.
func (d *Disk) PutSparse(path string, size int64) {
	d.Put(path, nil, 0o644)
	i := d.files[clean(path)]
	i.sparse = map[int64][]byte{}
	i.size = size
}

// ReadRaw reads the content without the daemon taking part.
func (d *Disk) ReadRaw(path string, b []byte, off int64) int {
	i := d.files[clean(path)]
	if i == nil || off >= i.length() {
		return 0
	}
	return i.copyOut(b, off)
}

// Pages lists the offsets of the pages of a sparse file that were written.
func (d *Disk) Pages(path string) (out []int64) {
	i := d.files[clean(path)]
	if i == nil {
		return nil
	}
	for k := range i.sparse {
		out = append(out, k*spPage)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

// Size is the length of a file, -1 when there is none.
func (d *Disk) Size(path string) int64 {
	if i := d.files[clean(path)]; i != nil {
		return i.length()
	}
	return -1
}

// Disk is the file system of one run.
type Disk struct {
	files  map[string]*inode
	dur    map[string]*inode // directory entries that survive a power loss
	dirs   map[string]bool
	fds    map[int]*File
	nfd    int
	counts map[string]int
	rng    *rt.RNG
	PageY  int // yield every this many bytes of a transfer
	// Inject decides the fate of an operation; nil means it succeeds.
	Inject func(op *Op) *Fault
	Stats  map[string]int64
	// OnWrite observes every piece written, at the moment reads can see it.
	OnWrite func(path string, off int64, b []byte)
	Syncs   int64
}

// D is the disk of the run in progress.
var D *Disk

func New() *Disk {
	D = &Disk{files: map[string]*inode{}, dur: map[string]*inode{}, dirs: map[string]bool{"/": true}, fds: map[int]*File{}, nfd: 10,
		counts: map[string]int{}, rng: rt.S.Stream("disk"), PageY: 4096, Stats: map[string]int64{}}
	return D
}

func clean(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return filepath.Clean(p)
}

// Put installs a durable file.
func (d *Disk) Put(path string, data []byte, mode fs.FileMode) {
	path = clean(path)
	i := &inode{data: append([]byte(nil), data...), mode: mode, durable: append([]byte(nil), data...), durSize: int64(len(data)), pend: map[int64][][]byte{}, nlink: 1}
	d.files[path] = i
	d.dur[path] = i
	for p := filepath.Dir(path); p != "/"; p = filepath.Dir(p) {
		d.dirs[p] = true
	}
}

// Drop removes a file and every trace of it.
func (d *Disk) Drop(path string) {
	delete(d.files, clean(path))
	delete(d.dur, clean(path))
}

// Bytes is the current content as any reader of the host would see it.
func (d *Disk) Bytes(path string) []byte {
	if i := d.files[clean(path)]; i != nil {
		return i.data
	}
	return nil
}

func (d *Disk) Exists(path string) bool { return d.files[clean(path)] != nil }

func (d *Disk) List() []string {
	var out []string
	for p := range d.files {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

func (d *Disk) op(kind, path string, off int64, n int) (*Fault, *Op) {
	d.counts[kind+path]++
	d.Stats[kind]++
	o := &Op{Kind: kind, Path: path, Off: off, Len: n, N: d.counts[kind+path]}
	if d.Inject == nil {
		return nil, o
	}
	f := d.Inject(o)
	if f != nil && f.Delay > 0 {
		rt.Sleep(f.Delay)
	}
	return f, o
}

// Count is how often an operation kind was applied to a file.
func (d *Disk) Count(kind, path string) int { return d.counts[kind+clean(path)] }

// File is an open file.
type File struct {
	D      *Disk
	name   string
	path   string
	ino    *inode
	flag   int
	off    int64
	fd     int
	closed bool
	owner  *rt.Proc
}

func pathErr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

func (d *Disk) Open(name string, flag int, perm fs.FileMode) (*File, error) {
	rt.Y(0)
	if rt.Dying() {
		return nil, os.ErrClosed
	}
	p := clean(name)
	f, _ := d.op("open", p, 0, 0)
	if f != nil && f.Err != nil {
		return nil, pathErr("open", name, f.Err)
	}
	i := d.files[p]
	if i == nil {
		if d.dirs[p] {
			if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
				return nil, pathErr("open", name, syscall.EISDIR)
			}
			d.nfd++
			x := &File{D: d, name: name, path: p, flag: flag, fd: d.nfd, owner: rt.Cur().Proc}
			d.fds[x.fd] = x
			return x, nil
		}
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		if !d.dirs[filepath.Dir(p)] {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		i = &inode{mode: perm.Perm(), pend: map[int64][][]byte{}, nlink: 1}
		d.files[p] = i
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, pathErr("open", name, syscall.EEXIST)
	}
	if flag&os.O_TRUNC != 0 {
		d.truncate(i, 0)
	}
	d.nfd++
	x := &File{D: d, name: name, path: p, ino: i, flag: flag, fd: d.nfd, owner: rt.Cur().Proc}
	d.fds[x.fd] = x
	return x, nil
}

func (d *Disk) truncate(i *inode, n int64) {
	if i.sparse != nil {
		for k := range i.sparse {
			if k*spPage >= n {
				delete(i.sparse, k)
			} else if n-k*spPage < spPage {
				clear(i.sparse[k][n-k*spPage:])
			}
		}
		i.size = n
		return
	}
	if int64(len(i.data)) > n {
		i.data = append([]byte(nil), i.data[:n]...)
	} else {
		i.data = append(i.data, make([]byte, n-int64(len(i.data)))...)
	}
	i.sizes = append(i.sizes, n)
}

// ByFd finds an open file by its descriptor.
func (d *Disk) ByFd(fd int) *File { return d.fds[fd] }

// OpenFiles is the number of descriptors a process holds.
func (d *Disk) OpenFiles(p *rt.Proc) int {
	n := 0
	for _, f := range d.fds {
		if f.owner == p {
			n++
		}
	}
	return n
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr {
	if f == nil || f.closed {
		return ^uintptr(0)
	}
	return uintptr(f.fd)
}

func (f *File) check(op string) error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return pathErr(op, f.name, os.ErrClosed)
	}
	if f.ino == nil {
		return pathErr(op, f.name, syscall.EISDIR)
	}
	return nil
}

// ReadAt copies page by page; a concurrent write may be seen in part.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	rt.Y(0)
	if rt.Dying() {
		return 0, os.ErrClosed
	}
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, pathErr("readat", f.name, os.ErrInvalid)
	}
	d := f.D
	ft, _ := d.op("read", f.path, off, len(b))
	lim := len(b)
	if ft != nil && (ft.Err != nil || ft.Short) && ft.Part < lim {
		lim = ft.Part
	}
	n := 0
	for n < lim {
		o := off + int64(n)
		if o >= f.ino.length() {
			break
		}
		k := lim - n
		if r := d.PageY - int(o%int64(d.PageY)); k > r {
			k = r
		}
		n += f.ino.copyOut(b[n:n+k], o)
		if n < lim {
			rt.Y(0)
			if rt.Dying() {
				return 0, os.ErrClosed
			}
		}
	}
	if ft != nil && ft.Err != nil {
		return n, pathErr("read", f.name, ft.Err)
	}
	if n < len(b) {
		return n, errEOF
	}
	return n, nil
}

// WriteAt copies page by page into the page cache.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	rt.Y(0)
	if rt.Dying() {
		return 0, os.ErrClosed
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, pathErr("writeat", f.name, os.ErrInvalid)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, pathErr("write", f.name, syscall.EBADF)
	}
	d := f.D
	ft, _ := d.op("write", f.path, off, len(b))
	lim := len(b)
	if ft != nil && (ft.Err != nil || ft.Short) && ft.Part < lim {
		lim = ft.Part
	}
	n := 0
	for n < lim {
		o := off + int64(n)
		k := lim - n
		if r := d.PageY - int(o%int64(d.PageY)); k > r {
			k = r
		}
		f.ino.put(b[n:n+k], o)
		if d.OnWrite != nil {
			// piece by piece: a concurrent reader may see this one already
			d.OnWrite(f.path, o, b[n:n+k])
		}
		n += k
		if n < lim {
			rt.Y(0)
			if rt.Dying() {
				return 0, os.ErrClosed
			}
		}
	}
	if ft != nil && ft.Err != nil {
		return n, pathErr("write", f.name, ft.Err)
	}
	if n < len(b) {
		return n, pathErr("write", f.name, syscall.ENOSPC)
	}
	if f.flag&(os.O_SYNC|syscall.O_DSYNC) != 0 {
		// the file is open for synchronous writes
		if err := f.SyncKind("osync"); err != nil {
			return 0, pathErr("write", f.name, err)
		}
	}
	return n, nil
}

func (i *inode) put(b []byte, off int64) {
	end := off + int64(len(b))
	if i.sparse != nil {
		if end > i.size {
			i.size = end
		}
		for len(b) > 0 {
			k := int(min(int64(len(b)), spPage-off%spPage))
			pg := i.sparse[off/spPage]
			if pg == nil {
				pg = make([]byte, spPage)
				i.sparse[off/spPage] = pg
			}
			copy(pg[off%spPage:], b[:k])
			b, off = b[k:], off+int64(k)
		}
		return
	}
	if end > int64(len(i.data)) {
		i.data = append(i.data, make([]byte, end-int64(len(i.data)))...)
		i.sizes = append(i.sizes, end)
	}
	copy(i.data[off:], b)
	for s := off / Sector; s*Sector < end; s++ {
		e := (s + 1) * Sector
		if e > int64(len(i.data)) {
			e = int64(len(i.data))
		}
		i.pend[s] = append(i.pend[s], append([]byte(nil), i.data[s*Sector:e]...))
	}
}

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.ReadAt(b, f.off)
	f.off += int64(n)
	if err == errEOF && n > 0 {
		err = nil
	}
	return n, err
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.ino.data))
	}
	n, err := f.WriteAt(b, f.off)
	f.off += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 1:
		off += f.off
	case 2:
		off += f.ino.length()
	}
	if off < 0 {
		return 0, pathErr("seek", f.name, syscall.EINVAL)
	}
	f.off = off
	return off, nil
}

func (f *File) Truncate(n int64) error {
	rt.Y(0)
	if rt.Dying() {
		return os.ErrClosed
	}
	if err := f.check("truncate"); err != nil {
		return err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 || n < 0 {
		return pathErr("truncate", f.name, syscall.EINVAL)
	}
	ft, _ := f.D.op("trunc", f.path, n, 0)
	if ft != nil && ft.Err != nil {
		return pathErr("truncate", f.name, ft.Err)
	}
	f.D.truncate(f.ino, n)
	return nil
}

// Sync makes the file's data durable. What is made durable is what was there
// when the call started; a write that runs meanwhile may or may not be.
func (f *File) SyncKind(kind string) error {
	rt.Y(0)
	if rt.Dying() {
		return os.ErrClosed
	}
	if f == nil || f.closed {
		return syscall.EBADF
	}
	if f.ino == nil { // directory
		ft, _ := f.D.op("syncdir", f.path, 0, 0)
		if ft != nil && ft.Err != nil {
			return ft.Err
		}
		f.D.syncDir(f.path)
		return nil
	}
	i := f.ino
	n := map[int64]int{}
	for s, v := range i.pend {
		n[s] = len(v)
	}
	size := i.length()
	ft, _ := f.D.op(kind, f.path, 0, 0)
	rt.Y(0)
	if rt.Dying() {
		return os.ErrClosed
	}
	if ft != nil && ft.Err != nil {
		if ft.Lose {
			// the pages are marked clean but never reached the disk
			for s, k := range n {
				if k <= len(i.pend[s]) {
					i.pend[s] = i.pend[s][k:]
					if len(i.pend[s]) == 0 {
						delete(i.pend, s)
					}
				}
			}
		}
		return ft.Err
	}
	f.D.Syncs++
	if i.sparse == nil {
		i.harden(n, size)
	}
	// syncing a newly created file makes its directory entry durable too
	if f.D.files[f.path] == i && f.D.dur[f.path] == nil {
		f.D.dur[f.path] = i
	}
	return nil
}

func (i *inode) harden(n map[int64]int, size int64) {
	if int64(len(i.durable)) < size {
		i.durable = append(i.durable, make([]byte, size-int64(len(i.durable)))...)
	} else {
		i.durable = i.durable[:size]
	}
	i.durSize = size
	i.sizes = nil
	if int64(len(i.data)) != size {
		i.sizes = append(i.sizes, int64(len(i.data)))
	}
	for s, k := range n {
		v := i.pend[s]
		if k > len(v) {
			k = len(v)
		}
		if k == 0 {
			continue
		}
		if s*Sector < int64(len(i.durable)) {
			copy(i.durable[s*Sector:], v[k-1])
		}
		i.pend[s] = v[k:]
		if len(i.pend[s]) == 0 {
			delete(i.pend, s)
		}
	}
}

func (f *File) Sync() error {
	if err := f.SyncKind("sync"); err != nil {
		return pathErr("sync", f.name, err)
	}
	return nil
}

func (d *Disk) syncDir(dir string) {
	for p, i := range d.files {
		if filepath.Dir(p) == dir {
			d.dur[p] = i
		}
	}
	for p := range d.dur {
		if filepath.Dir(p) == dir && d.files[p] == nil {
			delete(d.dur, p)
		}
	}
}

func (f *File) Close() error {
	rt.Y(0)
	if rt.Dying() {
		return nil
	}
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return pathErr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	delete(f.D.fds, f.fd)
	ft, _ := f.D.op("close", f.path, 0, 0)
	if ft != nil && ft.Err != nil {
		return pathErr("close", f.name, ft.Err)
	}
	return nil
}

type info struct {
	name string
	size int64
	mode fs.FileMode
	ino  *inode
}

// SameFile is os.SameFile.
func SameFile(a, b fs.FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.ino == y.ino && (x.ino != nil || x.name == y.name)
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return rt.Epoch }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func (f *File) Stat() (fs.FileInfo, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	if f.closed {
		return nil, pathErr("stat", f.name, os.ErrClosed)
	}
	if f.ino == nil {
		return f.D.Stat(f.name)
	}
	rt.Y(0)
	if rt.Dying() {
		return nil, os.ErrClosed
	}
	ft, _ := f.D.op("stat", f.path, 0, 0)
	if ft != nil && ft.Err != nil {
		return nil, pathErr("stat", f.name, ft.Err)
	}
	return f.ino.info(f.path), nil
}

func (i *inode) info(p string) info {
	size := i.length()
	if i.mode&fs.ModeDevice != 0 {
		size = 0
	}
	return info{filepath.Base(p), size, i.mode, i}
}

func (d *Disk) Stat(name string) (fs.FileInfo, error) {
	rt.Y(0)
	if rt.Dying() {
		return nil, os.ErrClosed
	}
	p := clean(name)
	ft, _ := d.op("stat", p, 0, 0)
	if ft != nil && ft.Err != nil {
		return nil, pathErr("stat", name, ft.Err)
	}
	if i := d.files[p]; i != nil {
		return i.info(p), nil
	}
	if d.dirs[p] {
		return info{filepath.Base(p), 4096, fs.ModeDir | 0o755, nil}, nil
	}
	return nil, pathErr("stat", name, syscall.ENOENT)
}

func (d *Disk) MkdirAll(name string) error {
	rt.Y(0)
	p := clean(name)
	ft, _ := d.op("mkdir", p, 0, 0)
	if ft != nil && ft.Err != nil {
		return pathErr("mkdir", name, ft.Err)
	}
	for ; p != "/"; p = filepath.Dir(p) {
		if d.files[p] != nil {
			return pathErr("mkdir", name, syscall.ENOTDIR)
		}
		d.dirs[p] = true
	}
	return nil
}

func (d *Disk) Rename(from, to string) error {
	rt.Y(0)
	if rt.Dying() {
		return os.ErrClosed
	}
	a, b := clean(from), clean(to)
	ft, _ := d.op("rename", b, 0, 0)
	if ft != nil && ft.Err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: ft.Err}
	}
	i := d.files[a]
	if i == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	delete(d.files, a)
	d.files[b] = i
	return nil
}

func (d *Disk) Remove(name string) error {
	rt.Y(0)
	if rt.Dying() {
		return os.ErrClosed
	}
	p := clean(name)
	ft, _ := d.op("remove", p, 0, 0)
	if ft != nil && ft.Err != nil {
		return pathErr("remove", name, ft.Err)
	}
	if d.files[p] == nil {
		if d.dirs[p] && p != "/" {
			if len(d.entries(p)) > 0 {
				return pathErr("remove", name, syscall.ENOTEMPTY)
			}
			delete(d.dirs, p)
			return nil
		}
		return pathErr("remove", name, syscall.ENOENT)
	}
	delete(d.files, p)
	return nil
}

// RemoveAll removes a file or a directory with all it holds.
func (d *Disk) RemoveAll(name string) error {
	rt.Y(0)
	if rt.Dying() {
		return os.ErrClosed
	}
	p := clean(name)
	ft, _ := d.op("remove", p, 0, 0)
	if ft != nil && ft.Err != nil {
		return pathErr("unlinkat", name, ft.Err)
	}
	delete(d.files, p)
	for q := range d.files {
		if strings.HasPrefix(q, strings.TrimSuffix(p, "/")+"/") {
			delete(d.files, q)
		}
	}
	for q := range d.dirs {
		if q != "/" && (q == p || strings.HasPrefix(q, strings.TrimSuffix(p, "/")+"/")) {
			delete(d.dirs, q)
		}
	}
	return nil
}

// Link gives a file a second name.
func (d *Disk) Link(from, to string) error {
	rt.Y(0)
	if rt.Dying() {
		return os.ErrClosed
	}
	a, b := clean(from), clean(to)
	ft, _ := d.op("link", b, 0, 0)
	var err error
	switch {
	case ft != nil && ft.Err != nil:
		err = ft.Err
	case d.files[a] == nil || !d.dirs[filepath.Dir(b)]:
		err = syscall.ENOENT
	case d.files[b] != nil || d.dirs[b]:
		err = syscall.EEXIST
	}
	if err != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: err}
	}
	d.files[b] = d.files[a]
	return nil
}

func (d *Disk) entries(dir string) (out []string) {
	for p := range d.files {
		if filepath.Dir(p) == dir {
			out = append(out, p)
		}
	}
	for p := range d.dirs {
		if p != "/" && filepath.Dir(p) == dir {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// ReadDir lists a directory.
func (d *Disk) ReadDir(name string) ([]fs.DirEntry, error) {
	rt.Y(0)
	if rt.Dying() {
		return nil, os.ErrClosed
	}
	p := clean(name)
	ft, _ := d.op("readdir", p, 0, 0)
	if ft != nil && ft.Err != nil {
		return nil, pathErr("open", name, ft.Err)
	}
	if !d.dirs[p] {
		if d.files[p] != nil {
			return nil, pathErr("readdirent", name, syscall.ENOTDIR)
		}
		return nil, pathErr("open", name, syscall.ENOENT)
	}
	out := []fs.DirEntry{}
	for _, e := range d.entries(p) {
		if i := d.files[e]; i != nil {
			out = append(out, fs.FileInfoToDirEntry(i.info(e)))
		} else {
			out = append(out, fs.FileInfoToDirEntry(info{filepath.Base(e), 4096, fs.ModeDir | 0o755, nil}))
		}
	}
	return out, nil
}

// Chmod sets the permissions of a file.
func (d *Disk) Chmod(name string, m fs.FileMode) error {
	p := clean(name)
	if i := d.files[p]; i != nil {
		i.mode = i.mode&^fs.ModePerm | m.Perm()
		return nil
	}
	if d.dirs[p] {
		return nil
	}
	return pathErr("chmod", name, syscall.ENOENT)
}

// IsDir tells whether there is a directory of this name.
func (d *Disk) IsDir(name string) bool { return d.dirs[clean(name)] }

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	if f.closed {
		return nil, pathErr("readdirent", f.name, os.ErrClosed)
	}
	all, err := f.D.ReadDir(f.name)
	if err != nil {
		return nil, err
	}
	if f.off > int64(len(all)) {
		f.off = int64(len(all))
	}
	all = all[f.off:]
	if n > 0 {
		if len(all) == 0 {
			return nil, io.EOF
		}
		if len(all) > n {
			all = all[:n]
		}
	}
	f.off += int64(len(all))
	return all, nil
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range es {
		if i, e2 := e.Info(); e2 == nil {
			out = append(out, i)
		}
	}
	return out, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

// ReadFrom and WriteTo hide themselves from io.Copy.
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, struct{ io.Reader }{f}) }

func (f *File) Chmod(m fs.FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.ino.mode = f.ino.mode&^fs.ModePerm | m.Perm()
	return nil
}
func (f *File) Chown(int, int) error { return f.check("chown") }
func (f *File) Chdir() error {
	rt.NotSupported("os.File.Chdir")
	return nil
}

// regular files have no deadlines
func (f *File) SetDeadline(time.Time) error      { return pathErr("set", f.name, os.ErrNoDeadline) }
func (f *File) SetReadDeadline(time.Time) error  { return pathErr("set", f.name, os.ErrNoDeadline) }
func (f *File) SetWriteDeadline(time.Time) error { return pathErr("set", f.name, os.ErrNoDeadline) }

type rawConn struct{ f *File }

func (r rawConn) Control(g func(uintptr)) error {
	if r.f.closed {
		return os.ErrClosed
	}
	g(uintptr(r.f.fd))
	return nil
}
func (r rawConn) Read(g func(uintptr) bool) error  { return r.Control(func(fd uintptr) { g(fd) }) }
func (r rawConn) Write(g func(uintptr) bool) error { return r.Control(func(fd uintptr) { g(fd) }) }

// SyscallConn gives the system calls the simulated descriptor.
func (f *File) SyscallConn() (syscall.RawConn, error) {
	if f == nil {
		return nil, os.ErrInvalid
	}
	if f.closed {
		return nil, pathErr("SyscallConn", f.name, os.ErrClosed)
	}
	return rawConn{f}, nil
}

// ProcDied closes the process's descriptors.
func (d *Disk) ProcDied(p *rt.Proc) {
	for fd, f := range d.fds {
		if f.owner == p {
			f.closed = true
			delete(d.fds, fd)
		}
	}
}

// PowerLoss leaves for every sector that was not synced an arbitrary version
// of those written since, or the old one. Directory entries (creations and
// renames) that were not synced survive or not as a whole.
func (d *Disk) PowerLoss() {
	r := d.rng
	all := map[*inode]bool{}
	var paths []string
	for p := range d.files {
		paths = append(paths, p)
	}
	for p := range d.dur {
		if d.files[p] == nil {
			paths = append(paths, p)
		}
	}
	sort.Strings(paths)
	nf := map[string]*inode{}
	for _, p := range paths {
		i := d.files[p]
		if d.dur[p] != i && r.P(1, 2) {
			i = d.dur[p]
		}
		if i != nil {
			nf[p] = i
		}
	}
	// a rename that survives leaves nothing under the old name
	for _, p := range paths {
		if i := nf[p]; i != nil && d.files[p] != i {
			for _, q := range paths {
				if q != p && nf[q] == i && d.files[q] == i {
					delete(nf, p)
				}
			}
		}
	}
	lost := int64(0)
	for _, p := range paths {
		i := nf[p]
		if i == nil || all[i] {
			continue
		}
		all[i] = true
		out := append([]byte(nil), i.durable...)
		if len(i.sizes) > 0 {
			k := r.Intn(len(i.sizes) + 1)
			if k > 0 {
				n := i.sizes[k-1]
				if n < int64(len(out)) {
					out = out[:n]
				} else {
					out = append(out, make([]byte, n-int64(len(out)))...)
				}
			}
		}
		var ss []int64
		for s := range i.pend {
			ss = append(ss, s)
		}
		sort.Slice(ss, func(a, b int) bool { return ss[a] < ss[b] })
		mode := r.Intn(3) // 0: lose all, 1: keep all, 2: each sector on its own
		for _, s := range ss {
			v := i.pend[s]
			k := 0
			switch mode {
			case 1:
				k = len(v)
			case 2:
				k = r.Intn(len(v) + 1)
			}
			if k < len(v) {
				lost++
			}
			if k > 0 && s*Sector < int64(len(out)) {
				copy(out[s*Sector:], v[k-1])
			}
		}
		i.data = out
		i.durable = append([]byte(nil), out...)
		i.durSize = int64(len(out))
		i.pend = map[int64][][]byte{}
		i.sizes = nil
	}
	d.files = nf
	d.dur = map[string]*inode{}
	for p, i := range nf {
		d.dur[p] = i
	}
	d.Stats["sectors_lost"] += lost
}

// Advise is posix_fadvise.
func (f *File) Advise() error {
	if f.ino == nil {
		return syscall.EISDIR
	}
	ft, _ := f.D.op("advise", f.path, 0, 0)
	if ft != nil && ft.Err != nil {
		return ft.Err
	}
	return nil
}

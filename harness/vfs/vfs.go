// Package vfs is the in-memory device the explored program runs on. It records
// writes and syncs, injects faults, and counts handles and reads. Every
// operation is one atomic step of the explored execution.
//
// The package is not instrumented for the race detector (go:norace) and keeps
// its state in slices only, so that it adds no reports and no
// happens-before edges to the program under test.
package vfs

import (
	"syscall"
)

// Op kinds.
const (
	OpOpen = iota
	OpClose
	OpRead
	OpWrite
	OpSync
	OpTruncate
	OpStat
	OpSeek
	OpUnlink
	OpRename
	NumOps
)

var OpNames = [NumOps]string{"open", "close", "read", "write", "sync", "truncate", "stat", "seek", "unlink", "rename"}

// Rec is one recorded operation. For writes Data is what reached the device.
type Rec struct {
	Kind int
	File int   // file number
	Off  int64 // offset, or new length for a truncation
	Data []byte
	N    int // requested length
	Err  bool
}

type File struct {
	Name  string
	Data  []byte
	Ino   int
	Links int
	Dir   bool
	Mtime int64 // when it last changed, by the device's clock
}

// clock counts the changes to all files. It is never set back, so that a file
// and a later one under its name differ in their times, as they do on a disk.
var clock int64

//go:norace
func (f *File) changed() {
	clock++
	f.Mtime = clock
}

type handle struct {
	file  *File
	pos   int64
	flags int
	open  bool
	cont  bool // the last write was cut short by a fault: fail the next one
}

// Fault tells what happens to an operation.
type Fault struct {
	Err     syscall.Errno // error to return, 0 for none
	Partial int           // for reads and writes: bytes transferred first; -1 for none
}

// Device is the whole device. There is one per process.
type Device struct {
	Files   []*File
	handles []handle
	base    int // descriptor of the first handle
	OpenN   int // handles open now
	MaxOpen int
	OpN     int // operations so far

	LogWrites bool // record writes, syncs and truncations with their data
	LogReads  bool // record reads
	Log       []Rec

	// Decide is asked before every operation when set. ok is false for an
	// undisturbed operation.
	Decide func(n, kind int, file *File, off int64, size int) (f Fault, ok bool)
	// Counts of operations by kind.
	Counts [NumOps]int
	// Yield is called at the start of every operation when set.
	Yield func()
}

var Dev *Device

// Install puts an empty device behind /vfs.
func Install() {
	Dev = &Device{handles: make([]handle, 0, 4096), Files: make([]*File, 0, 256)}
	Dev.Files = append(Dev.Files, &File{Name: "/vfs", Dir: true, Links: 1})
	syscall.VerifHook = Dev
}

// Reset empties the device.
func Reset() {
	Dev.Files = Dev.Files[:1]
	// Descriptors of files that were left open must never name new ones: the
	// garbage collector may still close them.
	Dev.base += len(Dev.handles)
	Dev.handles = Dev.handles[:0]
	Dev.OpenN, Dev.MaxOpen, Dev.OpN = 0, 0, 0
	Dev.LogWrites, Dev.LogReads = false, false
	Dev.Log = Dev.Log[:0]
	Dev.Decide = nil
	Dev.Counts = [NumOps]int{}
}

// Put creates or replaces a file.
func Put(name string, data []byte) *File {
	f := Find(name)
	if f == nil {
		f = &File{Name: name, Ino: len(Dev.Files), Links: 1}
		Dev.Files = append(Dev.Files, f)
	}
	f.Data = data
	f.changed()
	return f
}

//go:norace
func Find(name string) *File {
	for _, f := range Dev.Files {
		if f.Links > 0 && f.Name == name {
			return f
		}
	}
	return nil
}

// Bytes returns the contents of a file (not a copy), nil if there is none.
func Bytes(name string) []byte {
	if f := Find(name); f != nil {
		return f.Data
	}
	return nil
}

// After is called when a read or write has transferred its data.
//
//go:norace
func (d *Device) After() {
	if d.Yield != nil {
		d.Yield()
	}
}

//go:norace
func (d *Device) step(kind int, f *File, off int64, size int) (Fault, bool) {
	if d.Yield != nil {
		d.Yield()
	}
	n := d.OpN
	d.OpN++
	d.Counts[kind]++
	if d.Decide != nil {
		return d.Decide(n, kind, f, off, size)
	}
	return Fault{Partial: -1}, false
}

//go:norace
func (d *Device) get(fd int) *handle {
	i := fd - syscall.VerifFdBase - d.base
	if i < 0 || i >= len(d.handles) || !d.handles[i].open {
		return nil
	}
	return &d.handles[i]
}

//go:norace
func (d *Device) Open(path string, flags int) (int, error) {
	f := Find(path)
	if ft, ok := d.step(OpOpen, f, 0, 0); ok && ft.Err != 0 {
		return -1, ft.Err
	}
	switch {
	case f == nil && flags&syscall.O_CREAT == 0:
		return -1, syscall.ENOENT
	case f != nil && flags&(syscall.O_CREAT|syscall.O_EXCL) == syscall.O_CREAT|syscall.O_EXCL:
		return -1, syscall.EEXIST
	case f == nil:
		f = &File{Name: path, Ino: len(d.Files), Links: 1}
		f.changed()
		d.Files = append(d.Files, f)
	}
	if f.Dir && flags&syscall.O_ACCMODE != syscall.O_RDONLY {
		return -1, syscall.EISDIR
	}
	if flags&syscall.O_TRUNC != 0 && flags&syscall.O_ACCMODE != syscall.O_RDONLY {
		f.Data = f.Data[:0:0]
		f.changed()
		d.record(Rec{Kind: OpTruncate, File: f.Ino, Off: 0})
	}
	i := -1
	for j := range d.handles {
		if !d.handles[j].open {
			i = j
			break
		}
	}
	if i < 0 {
		i = len(d.handles)
		d.handles = append(d.handles, handle{})
	}
	d.handles[i] = handle{file: f, flags: flags, open: true}
	d.OpenN++
	if d.OpenN > d.MaxOpen {
		d.MaxOpen = d.OpenN
	}
	return syscall.VerifFdBase + d.base + i, nil
}

//go:norace
func (d *Device) record(r Rec) {
	if d.LogWrites {
		d.Log = append(d.Log, r)
	}
}

//go:norace
func (d *Device) Close(fd int) error {
	h := d.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	ft, ok := d.step(OpClose, h.file, 0, 0)
	h.open = false // as on Linux, the descriptor is gone even on error
	h.file = nil
	d.OpenN--
	if ok && ft.Err != 0 {
		return ft.Err
	}
	return nil
}

//go:norace
func (d *Device) readAt(h *handle, p []byte, off int64) (int, error) {
	ft, ok := d.step(OpRead, h.file, off, len(p))
	if h.file.Dir {
		return -1, syscall.EISDIR
	}
	n := 0
	if off < 0 {
		return -1, syscall.EINVAL
	}
	if off < int64(len(h.file.Data)) {
		n = len(h.file.Data) - int(off)
		if n > len(p) {
			n = len(p)
		}
	}
	if ok {
		if ft.Err != 0 {
			if d.LogReads {
				d.Log = append(d.Log, Rec{Kind: OpRead, File: h.file.Ino, Off: off, N: len(p), Err: true})
			}
			return -1, ft.Err
		}
		if ft.Partial >= 0 && ft.Partial < n {
			n = ft.Partial
		}
	}
	if n > 0 {
		copyBytes(p[:n], h.file.Data[off:])
	}
	if d.LogReads {
		d.Log = append(d.Log, Rec{Kind: OpRead, File: h.file.Ino, Off: off, N: n})
	}
	return n, nil
}

//go:norace
func copyBytes(dst, src []byte) { copy(dst, src) }

//go:norace
func (d *Device) Read(fd int, p []byte) (int, error) {
	h := d.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	n, err := d.readAt(h, p, h.pos)
	if n > 0 {
		h.pos += int64(n)
	}
	return n, err
}

//go:norace
func (d *Device) Pread(fd int, p []byte, off int64) (int, error) {
	h := d.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	return d.readAt(h, p, off)
}

//go:norace
func (d *Device) writeAt(h *handle, p []byte, off int64) (int, error) {
	ft, ok := d.step(OpWrite, h.file, off, len(p))
	if h.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, syscall.EBADF
	}
	if h.cont {
		h.cont = false
		return -1, syscall.ENOSPC
	}
	n := len(p)
	if ok {
		if ft.Err != 0 && ft.Partial <= 0 {
			return -1, ft.Err
		}
		if ft.Partial >= 0 && ft.Partial < n {
			n = ft.Partial
			h.cont = ft.Err != 0
		}
	}
	if n > 0 {
		f := h.file
		end := int(off) + n
		if end > len(f.Data) {
			if end > cap(f.Data) {
				nd := make([]byte, len(f.Data), end+end/2+256)
				copy(nd, f.Data)
				f.Data = nd
			}
			old := len(f.Data)
			f.Data = f.Data[:end]
			for i := old; i < int(off); i++ {
				f.Data[i] = 0
			}
		}
		copy(f.Data[off:end], p[:n])
		f.changed()
		if d.LogWrites {
			d.Log = append(d.Log, Rec{Kind: OpWrite, File: f.Ino, Off: off, Data: append([]byte(nil), p[:n]...), N: n})
		}
	}
	return n, nil
}

//go:norace
func (d *Device) Write(fd int, p []byte) (int, error) {
	h := d.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	if h.flags&syscall.O_APPEND != 0 {
		h.pos = int64(len(h.file.Data))
	}
	n, err := d.writeAt(h, p, h.pos)
	if n > 0 {
		h.pos += int64(n)
	}
	return n, err
}

//go:norace
func (d *Device) Pwrite(fd int, p []byte, off int64) (int, error) {
	h := d.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	return d.writeAt(h, p, off)
}

//go:norace
func (d *Device) Seek(fd int, off int64, whence int) (int64, error) {
	h := d.get(fd)
	if h == nil {
		return -1, syscall.EBADF
	}
	if ft, ok := d.step(OpSeek, h.file, off, whence); ok && ft.Err != 0 {
		return -1, ft.Err
	}
	switch whence {
	case 1:
		off += h.pos
	case 2:
		off += int64(len(h.file.Data))
	}
	if off < 0 {
		return -1, syscall.EINVAL
	}
	h.pos = off
	return off, nil
}

//go:norace
func (d *Device) Fsync(fd int) error {
	h := d.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	if ft, ok := d.step(OpSync, h.file, 0, 0); ok && ft.Err != 0 {
		return ft.Err
	}
	d.record(Rec{Kind: OpSync, File: h.file.Ino})
	return nil
}

//go:norace
func (d *Device) truncate(f *File, n int64) error {
	if ft, ok := d.step(OpTruncate, f, n, 0); ok && ft.Err != 0 {
		return ft.Err
	}
	if n < 0 {
		return syscall.EINVAL
	}
	if n > 1<<31 {
		return syscall.EFBIG
	}
	if int(n) <= len(f.Data) {
		f.Data = f.Data[:n]
	} else {
		nd := make([]byte, n)
		copy(nd, f.Data)
		f.Data = nd
	}
	f.changed()
	d.record(Rec{Kind: OpTruncate, File: f.Ino, Off: n})
	return nil
}

//go:norace
func (d *Device) Ftruncate(fd int, n int64) error {
	h := d.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	if h.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return syscall.EINVAL
	}
	return d.truncate(h.file, n)
}

//go:norace
func (d *Device) Truncate(path string, n int64) error {
	f := Find(path)
	if f == nil {
		return syscall.ENOENT
	}
	return d.truncate(f, n)
}

//go:norace
func (d *Device) stat(f *File, st *syscall.Stat_t) error {
	if ft, ok := d.step(OpStat, f, 0, 0); ok && ft.Err != 0 {
		return ft.Err
	}
	*st = syscall.Stat_t{Dev: 1, Ino: uint64(f.Ino) + 1, Nlink: 1, Mode: syscall.S_IFREG | 0644,
		Size: int64(len(f.Data)), Blksize: 4096, Blocks: int64(len(f.Data)+511) / 512}
	st.Mtim.Sec = 1700000000 + f.Mtime
	st.Ctim = st.Mtim
	if f.Dir {
		st.Mode = syscall.S_IFDIR | 0755
	}
	return nil
}

//go:norace
func (d *Device) Fstat(fd int, st *syscall.Stat_t) error {
	h := d.get(fd)
	if h == nil {
		return syscall.EBADF
	}
	return d.stat(h.file, st)
}

//go:norace
func (d *Device) Stat(path string, st *syscall.Stat_t) error {
	f := Find(path)
	if f == nil {
		return syscall.ENOENT
	}
	return d.stat(f, st)
}

//go:norace
func (d *Device) Unlink(path string) error {
	f := Find(path)
	if f == nil {
		return syscall.ENOENT
	}
	if ft, ok := d.step(OpUnlink, f, 0, 0); ok && ft.Err != 0 {
		return ft.Err
	}
	f.Links = 0
	d.record(Rec{Kind: OpUnlink, File: f.Ino})
	return nil
}

//go:norace
func (d *Device) Rename(from, to string) error {
	f := Find(from)
	if f == nil {
		return syscall.ENOENT
	}
	if ft, ok := d.step(OpRename, f, 0, 0); ok && ft.Err != 0 {
		return ft.Err
	}
	if g := Find(to); g != nil && g != f {
		g.Links = 0
	}
	f.Name = to
	d.record(Rec{Kind: OpRename, File: f.Ino, Data: []byte(to)})
	return nil
}

package syscall

// VerifSys is the in-memory device behind paths below /vfs and behind file
// descriptors starting at VerifFdBase.
type VerifSys interface {
	Open(path string, flags int) (int, error)
	Close(fd int) error
	Read(fd int, p []byte) (int, error)
	Write(fd int, p []byte) (int, error)
	Pread(fd int, p []byte, off int64) (int, error)
	Pwrite(fd int, p []byte, off int64) (int, error)
	Seek(fd int, off int64, whence int) (int64, error)
	Fsync(fd int) error
	Ftruncate(fd int, n int64) error
	Truncate(path string, n int64) error
	Fstat(fd int, st *Stat_t) error
	Stat(path string, st *Stat_t) error
	Unlink(path string) error
	Rename(from, to string) error
	After() // called after reads and writes
}

const VerifFdBase = 1 << 24

// VerifHook is set by the harness.
var VerifHook VerifSys

func verifPath(path string) bool {
	return VerifHook != nil && len(path) >= 4 && path[:4] == "/vfs" && (len(path) == 4 || path[4] == '/')
}

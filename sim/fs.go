package main

import (
	"strings"
	"sync/atomic"
	"syscall"
)

// The simulated disk lives below this path, which exists on no real host.
const diskRoot = "/simdisk/"

const (
	fdBase    = 1 << 20
	fdPerRun  = 4096
	fdEpochs  = 500000
	zoneRoot  = "/zoneinfo"
	sysZones1 = "/usr/share/zoneinfo/"
)

type inode struct {
	data  []byte
	id    uint64
	mtime int64
}

type handle struct {
	ino    *inode
	path   string
	pos    int64
	flags  int
	wrote  bool
	synced int // bytes known to be on the platter
}

// FSFaults says how often each kind of disk fault strikes, in thousandths.
type FSFaults struct {
	openErr, writeErr, shortWrite, writeEINTR int
	readErr, shortRead, readEINTR             int
	closeErr, openEINTR, syncErr, renameErr   int
	zoneErr                                   int
	capacity                                  int // bytes the disk can hold; 0: no limit
}

// FS is the simulated disk and the handle table of the simulated process.
type FS struct {
	r       *Run
	epoch   int
	files   map[string]*inode
	handles [fdPerRun]*handle
	nextFd  int
	open    int
	limit   int // open handles allowed; 0: no limit
	f       FSFaults
	frozen  bool
	crashIn int // system calls until the process dies; 0: never
	ops     int
	hard    int // faults that lose data or fail the call
	ninodes uint64
	stamp   int64 // the latest modification time
}

var curEpoch int32

func newFS(r *Run) *FS {
	e := (int(atomic.LoadInt32(&curEpoch)) + 1) % fdEpochs
	atomic.StoreInt32(&curEpoch, int32(e))
	return &FS{r: r, epoch: e, files: map[string]*inode{}}
}

// swarmDisk draws which disk faults this run knows.
func (fs *FS) swarmDisk() {
	s := fs.r.src
	fs.f = FSFaults{
		openErr: s.Rate() / 4, writeErr: s.Rate() / 4, shortWrite: s.Rate(), writeEINTR: s.Rate(),
		readErr: s.Rate() / 2, shortRead: s.Rate(), readEINTR: s.Rate(),
		closeErr: s.Rate() / 2, openEINTR: s.Rate() / 2, syncErr: s.Rate() / 4, renameErr: s.Rate() / 4,
	}
	if s.Chance(1, 6) {
		fs.f.capacity = 1 + s.N(1<<uint(4+s.N(13)))
	}
}

// touch gives a file a new modification time, no two of which are the same.
func (fs *FS) touch(f *inode) {
	fs.stamp++
	if fs.r.clock > fs.stamp {
		fs.stamp = fs.r.clock
	}
	f.mtime = fs.stamp
}

// create makes a new empty file.
func (fs *FS) create(path string) *inode {
	fs.ninodes++
	f := &inode{id: fs.ninodes}
	fs.files[path] = f
	fs.touch(f)
	return f
}

// replace puts a file on the disk from outside.
func (fs *FS) replace(path string, data []byte) *inode {
	f := fs.create(path)
	f.data = data
	return f
}

func (fs *FS) heal() { fs.f = FSFaults{} }

// endProcess closes what a dead process had open.
func (fs *FS) endProcess() {
	for i := range fs.handles[:fs.nextFd] {
		fs.handles[i] = nil
	}
	fs.open = 0
	fs.frozen = false
	fs.crashIn = 0
}

func (fs *FS) used() int {
	n := 0
	for _, f := range fs.files {
		n += len(f.data)
	}
	return n
}

func (fs *FS) hit(rate int, kind string) bool {
	if rate > 0 && fs.r.src.Chance(rate, 1000) {
		fs.r.fault(kind)
		return true
	}
	return false
}

// op counts a system call and lets the process die at it.
func (fs *FS) op() (dying bool) {
	fs.ops++
	if fs.crashIn > 0 {
		fs.crashIn--
		return fs.crashIn == 0
	}
	return false
}

type fsHooks struct{}

// active returns the disk when the call comes from a simulated task.
func active() *FS {
	r := R
	if r == nil {
		return nil
	}
	return r.fs
}

func fakeFd(fd int) bool { return fd >= fdBase }

// lookup finds the handle of a simulated descriptor of this run.
func lookup(fd int) (*FS, *handle, int) {
	n := fd - fdBase
	if n/fdPerRun != int(atomic.LoadInt32(&curEpoch)) || !marked() {
		return nil, nil, 0
	}
	fs := active()
	if fs == nil {
		return nil, nil, 0
	}
	i := n % fdPerRun
	return fs, fs.handles[i], i
}

func (fsHooks) Openat(dirfd int, path string, flags int, mode uint32) (int, error, bool) {
	if !marked() {
		return 0, nil, false
	}
	fs := active()
	if fs == nil {
		return 0, nil, false
	}
	if !strings.HasPrefix(path, diskRoot) {
		if fs.f.zoneErr > 0 && strings.Contains(path, zoneRoot) {
			if fs.hit(fs.f.zoneErr, "zone-open") {
				errs := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOENT}
				return -1, errs[fs.r.src.N(len(errs))], true
			}
		}
		return 0, nil, false
	}
	if fs.frozen {
		return -1, syscall.EIO, true
	}
	if fs.op() {
		if flags&syscall.O_TRUNC != 0 && fs.r.src.Chance(1, 2) {
			if f := fs.files[path]; f != nil {
				f.data = nil
			}
		}
		fs.r.crash("at open")
	}
	if fs.hit(fs.f.openEINTR, "open-EINTR") {
		return -1, syscall.EINTR, true
	}
	if fs.hit(fs.f.openErr, "open-error") {
		fs.hard++
		errs := []syscall.Errno{syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENOSPC, syscall.EROFS}
		return -1, errs[fs.r.src.N(len(errs))], true
	}
	if fs.limit > 0 && fs.open >= fs.limit {
		fs.r.fault("handle-limit")
		fs.hard++
		return -1, syscall.EMFILE, true
	}
	f := fs.files[path]
	if f == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, syscall.ENOENT, true
		}
		f = fs.create(path)
	} else if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
		return -1, syscall.EEXIST, true
	}
	if flags&syscall.O_TRUNC != 0 {
		f.data = nil
		fs.touch(f)
	}
	if fs.nextFd == fdPerRun {
		panic("simulator error: too many handles in one run")
	}
	fd := fs.nextFd
	fs.nextFd++
	fs.open++
	fs.handles[fd] = &handle{ino: f, path: path, flags: flags, synced: len(f.data)}
	return fdBase + fs.epoch*fdPerRun + fd, nil, true
}

func (fsHooks) Read(fd int, p []byte, off int64) (int, error, bool) {
	if !fakeFd(fd) {
		if marked() {
			if fs := active(); fs != nil && fs.f.zoneErr > 0 && fs.hit(fs.f.zoneErr/4, "zone-read") {
				return -1, syscall.EIO, true
			}
		}
		return 0, nil, false
	}
	fs, h, _ := lookup(fd)
	if h == nil {
		return -1, syscall.EBADF, true
	}
	if fs.frozen {
		return -1, syscall.EIO, true
	}
	if fs.op() {
		fs.r.crash("at read")
	}
	if fs.hit(fs.f.readEINTR, "read-EINTR") {
		return -1, syscall.EINTR, true
	}
	if fs.hit(fs.f.readErr, "read-error") {
		fs.hard++
		return -1, syscall.EIO, true
	}
	pos := h.pos
	if off >= 0 {
		pos = off
	}
	if pos >= int64(len(h.ino.data)) {
		return 0, nil, true
	}
	n := len(p)
	if rest := len(h.ino.data) - int(pos); n > rest {
		n = rest
	}
	if n > 1 && fs.hit(fs.f.shortRead, "short-read") {
		n = 1 + fs.r.src.N(n-1)
	}
	copy(p[:n], h.ino.data[pos:])
	if off < 0 {
		h.pos += int64(n)
	}
	return n, nil, true
}

func (fs *FS) put(h *handle, p []byte, off int64) {
	pos := h.pos
	if off >= 0 {
		pos = off
	}
	if h.flags&syscall.O_APPEND != 0 {
		pos = int64(len(h.ino.data))
	}
	end := int(pos) + len(p)
	for len(h.ino.data) < end {
		h.ino.data = append(h.ino.data, 0)
	}
	copy(h.ino.data[pos:], p)
	if off < 0 {
		h.pos = int64(end)
	}
	h.wrote = true
	fs.touch(h.ino)
}

func (fsHooks) Write(fd int, p []byte, off int64) (int, error, bool) {
	if !fakeFd(fd) {
		return 0, nil, false
	}
	fs, h, _ := lookup(fd)
	if h == nil {
		return -1, syscall.EBADF, true
	}
	if fs.frozen {
		return -1, syscall.EIO, true
	}
	if h.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return -1, syscall.EBADF, true
	}
	s := fs.r.src
	if fs.op() {
		fs.put(h, p[:s.N(len(p)+1)], off)
		fs.r.crash("at write")
	}
	if fs.hit(fs.f.writeEINTR, "write-EINTR") {
		return -1, syscall.EINTR, true
	}
	if fs.hit(fs.f.writeErr, "write-error") {
		fs.hard++
		errs := []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EFBIG}
		e := errs[s.N(len(errs))]
		if s.Chance(1, 2) && len(p) > 1 { // part of the data still went out
			n := s.N(len(p))
			fs.put(h, p[:n], off)
			if n > 0 && s.Chance(1, 2) {
				return n, nil, true // reported as a short write; the rest will fail
			}
		}
		return -1, e, true
	}
	n := len(p)
	if fs.f.capacity > 0 {
		if free := fs.f.capacity - fs.used(); n > free {
			fs.r.fault("disk-full")
			fs.hard++
			if free <= 0 {
				return -1, syscall.ENOSPC, true
			}
			n = free
			fs.put(h, p[:n], off)
			return n, nil, true
		}
	}
	if n > 1 && fs.hit(fs.f.shortWrite, "short-write") {
		n = 1 + s.N(n-1)
	}
	fs.put(h, p[:n], off)
	return n, nil, true
}

func (fsHooks) Close(fd int) (error, bool) {
	if !fakeFd(fd) {
		return nil, false
	}
	fs, h, i := lookup(fd)
	if h == nil {
		if fs != nil {
			return syscall.EBADF, true
		}
		return nil, true // a handle of an earlier run, closed by the collector
	}
	if fs.frozen {
		return syscall.EIO, true
	}
	if fs.op() {
		fs.r.crash("at close")
	}
	fs.handles[i] = nil
	fs.open--
	if h.wrote && fs.hit(fs.f.closeErr, "close-error") {
		// write-back failed: data that had been accepted is gone
		fs.hard++
		if n := len(h.ino.data) - h.synced; n > 0 {
			h.ino.data = h.ino.data[:len(h.ino.data)-fs.r.src.N(n+1)]
		}
		errs := []syscall.Errno{syscall.EIO, syscall.ENOSPC, syscall.EDQUOT}
		return errs[fs.r.src.N(len(errs))], true
	}
	return nil, true
}

func (fsHooks) Fsync(fd int) (error, bool) {
	if !fakeFd(fd) {
		return nil, false
	}
	fs, h, _ := lookup(fd)
	if h == nil {
		return syscall.EBADF, true
	}
	if fs.frozen {
		return syscall.EIO, true
	}
	if fs.op() {
		fs.r.crash("at fsync")
	}
	if fs.hit(fs.f.syncErr, "sync-error") {
		fs.hard++
		return syscall.EIO, true
	}
	h.synced = len(h.ino.data)
	return nil, true
}

func resize(f *inode, length int64) {
	if int(length) <= len(f.data) {
		f.data = f.data[:length]
		return
	}
	f.data = append(f.data, make([]byte, int(length)-len(f.data))...)
}

func (fsHooks) Ftruncate(fd int, length int64) (error, bool) {
	if !fakeFd(fd) {
		return nil, false
	}
	fs, h, _ := lookup(fd)
	if h == nil {
		return syscall.EBADF, true
	}
	if fs.frozen {
		return syscall.EIO, true
	}
	if fs.op() {
		fs.r.crash("at truncate")
	}
	resize(h.ino, length)
	fs.touch(h.ino)
	h.wrote = true
	if h.synced > len(h.ino.data) {
		h.synced = len(h.ino.data)
	}
	return nil, true
}

func simPath(path string) *FS {
	if !strings.HasPrefix(path, diskRoot) || !marked() {
		return nil
	}
	return active()
}

func (fsHooks) Truncate(path string, length int64) (error, bool) {
	fs := simPath(path)
	if fs == nil {
		return nil, false
	}
	if fs.frozen {
		return syscall.EIO, true
	}
	f := fs.files[path]
	if f == nil {
		return syscall.ENOENT, true
	}
	resize(f, length)
	fs.touch(f)
	return nil, true
}

func (fsHooks) Seek(fd int, offset int64, whence int) (int64, error, bool) {
	if !fakeFd(fd) {
		return 0, nil, false
	}
	_, h, _ := lookup(fd)
	if h == nil {
		return -1, syscall.EBADF, true
	}
	switch whence {
	case 0:
		h.pos = offset
	case 1:
		h.pos += offset
	case 2:
		h.pos = int64(len(h.ino.data)) + offset
	}
	return h.pos, nil, true
}

func fillStat(st *syscall.Stat_t, f *inode) {
	*st = syscall.Stat_t{Mode: syscall.S_IFREG | 0o644, Size: int64(len(f.data)), Nlink: 1, Blksize: 4096, Ino: f.id}
	st.Mtim = syscall.NsecToTimespec(f.mtime)
	st.Ctim = st.Mtim
}

func (fsHooks) Fstat(fd int, st *syscall.Stat_t) (error, bool) {
	if !fakeFd(fd) {
		return nil, false
	}
	_, h, _ := lookup(fd)
	if h == nil {
		return syscall.EBADF, true
	}
	fillStat(st, h.ino)
	return nil, true
}

func (fsHooks) Fstatat(fd int, path string, st *syscall.Stat_t, flags int) (error, bool) {
	if path+"/" == diskRoot || path == diskRoot {
		*st = syscall.Stat_t{Mode: syscall.S_IFDIR | 0o755, Nlink: 2}
		return nil, true
	}
	fs := simPath(path)
	if fs == nil {
		return nil, false
	}
	f := fs.files[path]
	if f == nil {
		return syscall.ENOENT, true
	}
	fillStat(st, f)
	return nil, true
}

func (fsHooks) Fchmod(fd int, mode uint32) (error, bool) {
	if !fakeFd(fd) {
		return nil, false
	}
	if _, h, _ := lookup(fd); h == nil {
		return syscall.EBADF, true
	}
	return nil, true
}

func (fsHooks) Fchmodat(dirfd int, path string, mode uint32) (error, bool) {
	fs := simPath(path)
	if fs == nil {
		return nil, false
	}
	if fs.files[path] == nil {
		return syscall.ENOENT, true
	}
	return nil, true
}

func (fsHooks) Mkdirat(dirfd int, path string, mode uint32) (error, bool) {
	if path+"/" == diskRoot || path == diskRoot {
		return syscall.EEXIST, true
	}
	if simPath(path) == nil {
		return nil, false
	}
	return syscall.EACCES, true
}

func (fsHooks) Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (error, bool) {
	fs := simPath(oldpath)
	if fs == nil {
		return nil, false
	}
	return fs.rename(oldpath, newpath), true
}

func (fs *FS) rename(oldpath, newpath string) error {
	if fs.frozen {
		return syscall.EIO
	}
	if fs.op() {
		fs.r.crash("at rename")
	}
	if fs.hit(fs.f.renameErr, "rename-error") {
		fs.hard++
		return syscall.EIO
	}
	f := fs.files[oldpath]
	if f == nil {
		return syscall.ENOENT
	}
	delete(fs.files, oldpath)
	fs.files[newpath] = f
	return nil
}

func (fsHooks) Unlinkat(dirfd int, path string, flags int) (error, bool) {
	fs := simPath(path)
	if fs == nil {
		return nil, false
	}
	if fs.frozen {
		return syscall.EIO, true
	}
	if fs.op() {
		fs.r.crash("at unlink")
	}
	if fs.files[path] == nil {
		return syscall.ENOENT, true
	}
	delete(fs.files, path)
	return nil, true
}

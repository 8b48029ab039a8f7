package vsimrt

import (
	"io"
	"io/fs"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Inode is one file's storage. An in-place writer changes Data under open
// handles; a renaming writer installs a new Inode.
type Inode struct {
	Data []byte
	Dir  bool
	Dead bool // contents unreadable (bad sector): every read fails until replaced
	Mod  int64
}

type dent struct {
	path string
	ino  *Inode
}

// Faults are percentages per operation. All zero: a perfect disk.
type Faults struct {
	StatErr   int // stat fails although the file is there
	OpenErr   int // open fails
	ReadErr   int // a read fails after delivering some bytes
	ShortRead int // a read delivers fewer bytes than asked for
	Vanish    int // the file cannot be found by this one open although stat saw it
	Stall     int // the operation takes many scheduling points
	WriteErr  int // a write fails (EIO/ENOSPC)
	ShortWr   int // a write stores only a prefix and fails with ENOSPC
	CloseErr  int // close reports that data could not be stored
	CreateErr int
	MkdirErr  int
	SyncErr   int
	RenameErr int
	NoSize    int `json:",omitempty"` // the size of a file is not known before it is read
	DirErr    int `json:",omitempty"` // reading a directory, or its status, fails
}

// Disk is the simulated storage.
type Disk struct {
	ents     [1024]dent
	n        int
	F        Faults
	Full     int // bytes that may still be written; <0: unlimited
	Ops      int
	CrashAt  int // >0: the machine stops at this operation
	Crashed  bool
	Faulted  int    // failures injected since the last reset
	Hang     string // operations on files of this name ("*": any) may hang,
	HangAlso string // as on files of this name,
	HangPct  int    // with this probability, until Heal
	Stamps   uint64
	open     int // handles that are not closed
	handles  [16]*Handle
}

//go:norace
func (d *Disk) handle(h *Handle) *Handle {
	h.d = d
	d.open++
	for i := range d.handles {
		if d.handles[i] == nil {
			d.handles[i] = h
			break
		}
	}
	return h
}

//go:norace
func (d *Disk) unhandle(h *Handle) {
	d.open--
	for i := range d.handles {
		if d.handles[i] == h {
			d.handles[i] = nil
		}
	}
}

// Opened is the number of files that are open, and the name of one.
//
//go:norace
func (d *Disk) Opened() (int, string) {
	p := ""
	for _, h := range d.handles {
		if h != nil && p == "" {
			p = h.path
		}
	}
	return d.open, p
}

// TheDisk is the disk of the current run.
var TheDisk *Disk

func NewDisk() *Disk { return &Disk{Full: -1} }

//go:norace
func curDisk() *Disk { return TheDisk }

//go:norace
func (d *Disk) find(p string) *dent {
	for i := 0; i < d.n; i++ {
		if d.ents[i].path == p {
			return &d.ents[i]
		}
	}
	return nil
}

// Install puts (or replaces, as by rename) a file.
//
//go:norace
func (d *Disk) Install(p string, data []byte) *Inode {
	ino := &Inode{Data: data}
	d.link(p, ino)
	return ino
}

// stamp sets the modification time of what is now at a path. Clocks are coarse
// and tools keep times: it may be the same as before, or older.
//
//go:norace
func (d *Disk) stamp(ino, old *Inode) {
	d.Stamps++
	x := d.Stamps
	now := (epoch + clock) / 4e6 * 4e6
	switch r := next(&x); {
	case r%4 == 0 && old != nil:
		now = old.Mod
	case r%4 == 1:
		now -= int64(1+r>>8%1000) * 3600e9
	}
	ino.Mod = now
}

//go:norace
func (d *Disk) link(p string, ino *Inode) {
	e := d.find(p)
	if e != nil {
		d.stamp(ino, e.ino)
	} else {
		d.stamp(ino, nil)
	}
	if e != nil {
		e.ino = ino
		return
	}
	if d.n == len(d.ents) {
		panic("vsim: disk directory full")
	}
	d.ents[d.n].path = p
	d.ents[d.n].ino = ino
	d.n++
}

// Mkdir makes p a directory (only needed where a directory stands in a file's place).
//
//go:norace
func (d *Disk) Mkdir(p string) { d.link(p, &Inode{Dir: true}) }

// SetData changes a file in place: open handles see it.
//
//go:norace
func (d *Disk) SetData(p string, data []byte) {
	if e := d.find(p); e != nil && e.ino != nil {
		d.stamp(e.ino, e.ino)
		e.ino.Data = data
		return
	}
	d.Install(p, data)
}

// Remove unlinks p.
//
//go:norace
func (d *Disk) Remove(p string) {
	if e := d.find(p); e != nil {
		e.ino = nil
	}
}

// Injected is the number of harmful faults so far.
//
//go:norace
func (d *Disk) Injected() int { return d.Faulted }

// Kill makes the file at p unreadable.
//
//go:norace
func (d *Disk) Kill(p string) {
	if e := d.find(p); e != nil && e.ino != nil {
		e.ino.Dead = true
	}
}

// Lookup returns the inode of p or nil.
//
//go:norace
func (d *Disk) Lookup(p string) *Inode {
	if e := d.find(p); e != nil {
		return e.ino
	}
	return nil
}

// Names lists the paths that exist.
func (d *Disk) Names() []string {
	var out []string
	for i := 0; i < d.n; i++ {
		if d.ents[i].ino != nil {
			out = append(out, d.ents[i].path)
		}
	}
	return out
}

//go:norace
func (d *Disk) roll(pct int, kind string) bool {
	if pct <= 0 {
		return false
	}
	// 0 means "no fault" so that a shrunk replay injects nothing
	if v := Choose(100); v > 0 && v <= pct {
		Count(kind)
		if kind != "disk-stall" && kind != "short-read" && kind != "size-unknown" {
			d.Faulted++ // the others are no failures
		}
		return true
	}
	return false
}

//go:norace
func (d *Disk) enter() {
	d.Ops++
	YS()
	if d.roll(d.F.Stall, "disk-stall") {
		for i := 0; i < 40; i++ {
			Y(-1)
		}
	}
}

// hang keeps an operation from ending until the disk is healed.
//
//go:norace
func (d *Disk) hang(p string) {
	if d.HangPct <= 0 {
		return
	}
	if b := base(p); d.Hang != "*" && b != d.Hang && b != d.HangAlso {
		return
	}
	if v := Choose(100); v > 0 && v <= d.HangPct {
		Count("disk-hang")
		for d.HangPct > 0 {
			block(unsafe.Pointer(d))
		}
	}
}

// Heal lets the operations that hang go on.
//
//go:norace
func (d *Disk) Heal() {
	d.HangPct = 0
	wakeAll(unsafe.Pointer(d))
}

// ReadDir is os.ReadDir.
func (d *Disk) ReadDir(p string) ([]fs.DirEntry, error) {
	d.enter()
	if ino := d.Lookup(p); ino != nil && !ino.Dir {
		return nil, pathErr("readdirent", p, syscall.ENOTDIR)
	}
	var out []fs.DirEntry
	seen := map[string]bool{}
	for i := 0; i < d.n; i++ {
		rel, ok := strings.CutPrefix(d.ents[i].path, strings.TrimSuffix(p, "/")+"/")
		if !ok || rel == "" || d.ents[i].ino == nil {
			continue
		}
		first, _, _ := strings.Cut(rel, "/")
		if seen[first] {
			continue
		}
		seen[first] = true
		if fi, err := d.Peek(p + "/" + first); err == nil {
			out = append(out, fi)
		}
	}
	if len(out) == 0 {
		if _, err := d.Peek(p); err != nil {
			return nil, err
		}
	}
	if d.roll(d.F.DirErr, "readdir-error") {
		return out[:Choose(len(out)+1)], pathErr("readdirent", p, syscall.EIO)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out, nil
}

// DInfo is the fs.FileInfo of a simulated file.
type DInfo struct {
	name string
	size int64
	dir  bool
	mod  int64
}

func (i DInfo) Name() string       { return i.name }
func (i DInfo) Size() int64        { return i.size }
func (i DInfo) ModTime() time.Time { return time.Unix(0, i.mod) }
func (i DInfo) IsDir() bool        { return i.dir }
func (i DInfo) Sys() any           { return nil }
func (i DInfo) Mode() fs.FileMode {
	if i.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i DInfo) Type() fs.FileMode          { return i.Mode().Type() }
func (i DInfo) Info() (fs.FileInfo, error) { return i, nil }

//go:norace
func base(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

//go:norace
func pathErr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

//go:norace
func (d *Disk) isImpliedDir(p string) bool {
	for i := 0; i < d.n; i++ {
		q := d.ents[i].path
		if d.ents[i].ino != nil && len(q) > len(p) && q[:len(p)] == p && q[len(p)] == '/' {
			return true
		}
	}
	return p == "." || p == "/"
}

// Stat is os.Stat / fs.Stat.
//
//go:norace
func (d *Disk) Stat(p string) (fs.FileInfo, error) {
	d.enter()
	d.hang(p)
	ino := d.Lookup(p)
	if ino == nil {
		if d.isImpliedDir(p) {
			if d.roll(d.F.DirErr, "stat-error") {
				return nil, pathErr("lstat", p, syscall.EACCES)
			}
			return DInfo{name: base(p), dir: true}, nil
		}
		return nil, pathErr("stat", p, fs.ErrNotExist)
	}
	if d.roll(d.F.StatErr, "stat-error") {
		return nil, pathErr("stat", p, syscall.EIO)
	}
	return d.info(base(p), ino), nil
}

func (d *Disk) info(name string, ino *Inode) DInfo {
	i := DInfo{name: name, size: int64(len(ino.Data)), dir: ino.Dir, mod: ino.Mod}
	if d.roll(d.F.NoSize, "size-unknown") {
		i.size = 0
	}
	return i
}

// Handle is an open simulated file.
type Handle struct {
	d      *Disk
	path   string
	ino    *Inode
	off    int
	closed bool
	wr     bool
	app    bool
	dirty  bool
}

// Peek is a Stat that never faults and takes no time.
//
//go:norace
func (d *Disk) Peek(p string) (DInfo, error) {
	ino := d.Lookup(p)
	if ino == nil {
		if d.isImpliedDir(p) {
			return DInfo{name: base(p), dir: true}, nil
		}
		return DInfo{}, pathErr("stat", p, fs.ErrNotExist)
	}
	return DInfo{name: base(p), size: int64(len(ino.Data)), dir: ino.Dir, mod: ino.Mod}, nil
}

// Open is os.Open / fs.FS.Open.
//
//go:norace
func (d *Disk) Open(p string) (*Handle, error) {
	d.enter()
	d.hang(p)
	ino := d.Lookup(p)
	if ino == nil {
		if d.isImpliedDir(p) {
			return d.handle(&Handle{path: p, ino: &Inode{Dir: true}}), nil
		}
		return nil, pathErr("open", p, fs.ErrNotExist)
	}
	if d.roll(d.F.Vanish, "file-vanished-before-open") {
		return nil, pathErr("open", p, fs.ErrNotExist)
	}
	if d.roll(d.F.OpenErr, "open-error") {
		return nil, pathErr("open", p, syscall.EMFILE)
	}
	return d.handle(&Handle{path: p, ino: ino}), nil
}

//go:norace
func dirOf(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			if i == 0 {
				return "/"
			}
			return p[:i]
		}
	}
	return "."
}

// Flags of OpenFile, as on Linux.
const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

// OpenFile is os.OpenFile.
//
//go:norace
func (d *Disk) OpenFile(p string, flag int) (*Handle, error) {
	if flag&(oWRONLY|oRDWR|oCREATE) == 0 {
		return d.Open(p)
	}
	d.enter()
	if d.dead() {
		return nil, pathErr("open", p, syscall.EIO)
	}
	ino := d.Lookup(p)
	if ino == nil && d.isImpliedDir(p) || ino != nil && ino.Dir {
		return nil, pathErr("open", p, syscall.EISDIR)
	}
	if d.roll(d.F.CreateErr, "create-error") {
		return nil, pathErr("open", p, syscall.EACCES)
	}
	if ino == nil {
		if flag&oCREATE == 0 {
			return nil, pathErr("open", p, fs.ErrNotExist)
		}
		par := d.Lookup(dirOf(p))
		if par == nil && !d.isImpliedDir(dirOf(p)) {
			return nil, pathErr("open", p, fs.ErrNotExist)
		}
		if par != nil && !par.Dir {
			return nil, pathErr("open", p, syscall.ENOTDIR)
		}
		ino = &Inode{}
		d.link(p, ino)
	} else if flag&oEXCL != 0 {
		return nil, pathErr("open", p, fs.ErrExist)
	}
	if flag&oTRUNC != 0 {
		ino.Data = nil
	}
	return d.handle(&Handle{path: p, ino: ino, wr: true, app: flag&oAPPEND != 0}), nil
}

// dead counts the operation against CrashAt.
//
//go:norace
func (d *Disk) dead() bool {
	if d.CrashAt > 0 && d.Ops >= d.CrashAt && !d.Crashed {
		d.Crashed = true
		Count("crash")
		panic(CrashT{})
	}
	return d.Crashed
}

// CrashT is what a simulated process crash unwinds with.
type CrashT struct{}

// Write stores b at the current offset.
//
//go:norace
func (h *Handle) Write(b []byte) (int, error) {
	d := h.d
	d.enter()
	if h.closed {
		return 0, pathErr("write", h.path, fs.ErrClosed)
	}
	if !h.wr {
		return 0, pathErr("write", h.path, syscall.EBADF)
	}
	if d.Crashed {
		return 0, pathErr("write", h.path, syscall.EIO)
	}
	n := len(b)
	var err error
	if d.CrashAt > 0 && d.Ops >= d.CrashAt {
		h.store(b[:Choose(n+1)])
		d.dead()
	}
	if d.roll(d.F.WriteErr, "write-error") {
		n, err = 0, pathErr("write", h.path, syscall.EIO)
	} else if d.roll(d.F.ShortWr, "short-write-no-space") {
		n, err = Choose(n+1), pathErr("write", h.path, syscall.ENOSPC)
		if n == len(b) && n > 0 {
			n--
		}
	}
	if d.Full >= 0 && n > d.Full {
		n, err = d.Full, pathErr("write", h.path, syscall.ENOSPC)
		Count("disk-full")
		d.Faulted++
	}
	if d.Full >= 0 {
		d.Full -= n
	}
	h.store(b[:n])
	return n, err
}

//go:norace
func (h *Handle) store(b []byte) {
	ino := h.ino
	if h.app {
		h.off = len(ino.Data)
	}
	for len(ino.Data) < h.off+len(b) {
		ino.Data = append(ino.Data, 0)
	}
	for i := range b {
		ino.Data[h.off+i] = b[i]
	}
	h.off += len(b)
	if len(b) > 0 {
		ino.Mod = (epoch + clock) / 4e6 * 4e6
		h.dirty = true
	}
}

//go:norace
func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	o := h.off
	h.off = int(off)
	n, err := h.Read(b)
	for err == nil && n < len(b) {
		var m int
		m, err = h.Read(b[n:])
		n += m
	}
	h.off = o
	return n, err
}

//go:norace
func (h *Handle) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(h.off)
	case io.SeekEnd:
		off += int64(len(h.ino.Data))
	}
	if off < 0 {
		return 0, pathErr("seek", h.path, syscall.EINVAL)
	}
	h.off = int(off)
	return off, nil
}

//go:norace
func (h *Handle) Truncate(n int) error {
	h.d.enter()
	if h.d.dead() {
		return pathErr("truncate", h.path, syscall.EIO)
	}
	for len(h.ino.Data) < n {
		h.ino.Data = append(h.ino.Data, 0)
	}
	h.ino.Data = h.ino.Data[:n]
	return nil
}

// Sync is fsync.
//
//go:norace
func (h *Handle) Sync() error {
	h.d.enter()
	if h.d.dead() {
		return pathErr("sync", h.path, syscall.EIO)
	}
	if h.d.roll(h.d.F.SyncErr, "sync-error") {
		h.lose()
		return pathErr("sync", h.path, syscall.EIO)
	}
	h.dirty = false
	return nil
}

// lose drops a suffix of the file: a write that was only buffered.
//
//go:norace
func (h *Handle) lose() {
	if n := len(h.ino.Data); n > 0 {
		h.ino.Data = h.ino.Data[:Choose(n)]
	}
	h.dirty = false
}

// MkdirOp is os.Mkdir or os.MkdirAll.
//
//go:norace
func (d *Disk) MkdirOp(p string, all bool) error {
	d.enter()
	if d.dead() {
		return pathErr("mkdir", p, syscall.EIO)
	}
	if ino := d.Lookup(p); ino != nil {
		if !ino.Dir {
			return pathErr("mkdir", p, syscall.ENOTDIR)
		}
		if all {
			return nil
		}
		return pathErr("mkdir", p, fs.ErrExist)
	}
	if d.isImpliedDir(p) {
		if all {
			return nil
		}
		return pathErr("mkdir", p, fs.ErrExist)
	}
	if d.roll(d.F.MkdirErr, "mkdir-error") {
		return pathErr("mkdir", p, syscall.EROFS)
	}
	for q := dirOf(p); q != "/" && q != "."; q = dirOf(q) {
		if ino := d.Lookup(q); ino != nil && !ino.Dir {
			return pathErr("mkdir", q, syscall.ENOTDIR)
		} else if ino == nil && !all && !d.isImpliedDir(q) {
			return pathErr("mkdir", p, fs.ErrNotExist)
		}
	}
	d.link(p, &Inode{Dir: true})
	return nil
}

// RemoveOp is os.Remove.
//
//go:norace
func (d *Disk) RemoveOp(p string) error {
	d.enter()
	if d.dead() {
		return pathErr("remove", p, syscall.EIO)
	}
	if d.Lookup(p) == nil {
		return pathErr("remove", p, fs.ErrNotExist)
	}
	d.Remove(p)
	return nil
}

// RenameOp is os.Rename.
//
//go:norace
func (d *Disk) RenameOp(p, q string) error {
	d.enter()
	if d.dead() {
		return pathErr("rename", p, syscall.EIO)
	}
	ino := d.Lookup(p)
	if ino == nil {
		return pathErr("rename", p, fs.ErrNotExist)
	}
	if to := d.Lookup(q); to != nil && to.Dir {
		return pathErr("rename", q, syscall.EISDIR)
	}
	if d.roll(d.F.RenameErr, "rename-error") {
		return pathErr("rename", p, syscall.EIO)
	}
	d.Remove(p)
	d.link(q, ino)
	return nil
}

// Cwd, when set, is the directory that relative paths start from.
var Cwd string

// OnExit intercepts os.Exit.
var OnExit func(int)

//go:norace
func (h *Handle) Stat() (fs.FileInfo, error) {
	return h.d.info(base(h.path), h.ino), nil
}

//go:norace
func (h *Handle) Name() string { return h.path }

//go:norace
func (h *Handle) Close() error {
	if h.closed {
		return pathErr("close", h.path, fs.ErrClosed)
	}
	h.closed = true
	h.d.unhandle(h)
	if h.wr {
		h.d.enter()
		if h.d.dead() {
			return pathErr("close", h.path, syscall.EIO)
		}
		if h.dirty && h.d.roll(h.d.F.CloseErr, "close-error") {
			h.lose()
			return pathErr("close", h.path, syscall.EDQUOT)
		}
	}
	return nil
}

//go:norace
func (h *Handle) Read(b []byte) (int, error) {
	h.d.enter()
	h.d.hang(h.path)
	if h.closed {
		return 0, pathErr("read", h.path, fs.ErrClosed)
	}
	if h.ino.Dir {
		return 0, pathErr("read", h.path, syscall.EISDIR)
	}
	if h.ino.Dead {
		Count("bad-sector")
		h.d.Faulted++
		return 0, pathErr("read", h.path, syscall.EIO)
	}
	data := h.ino.Data
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(data) {
		return 0, io.EOF
	}
	n := len(data) - h.off
	if n > len(b) {
		n = len(b)
	}
	if h.d.roll(h.d.F.ReadErr, "read-error") {
		k := Choose(n + 1)
		for i := 0; i < k; i++ {
			b[i] = data[h.off+i]
		}
		h.off += k
		return k, pathErr("read", h.path, syscall.EIO)
	}
	if n > 1 && h.d.roll(h.d.F.ShortRead, "short-read") {
		n = 1 + Choose(n)
		if n > len(b) {
			n = len(b)
		}
	}
	for i := 0; i < n; i++ {
		b[i] = data[h.off+i]
	}
	h.off += n
	return n, nil
}

// ReadFile reads a whole file the way os.ReadFile does: it sizes the buffer by
// Stat and reads until EOF, so that a file that changes meanwhile is seen in a
// mixed state.
func (d *Disk) ReadFile(p string) ([]byte, error) {
	h, err := d.Open(p)
	if err != nil {
		return nil, err
	}
	out := make([]byte, 0, h.size()+64)
	for {
		if len(out) == cap(out) {
			out = append(out, 0)[:len(out)]
		}
		k := cap(out) - len(out)
		n, err := h.Read(out[len(out) : len(out)+k])
		out = out[:len(out)+n]
		if err != nil {
			h.Close()
			if err == io.EOF {
				err = nil
			}
			return out, err
		}
	}
}

//go:norace
func (h *Handle) size() int { return len(h.ino.Data) }

// SimFS is an fs.FS over a Disk. Mode 0: only Open; 1: + Stat; 2: + ReadFile; 3: both.
type SimFS struct{ D *Disk }
type simFSStat struct{ SimFS }
type simFSRead struct{ SimFS }
type simFSBoth struct{ SimFS }

// NewFS makes an fs.FS with the optional interfaces that mode selects.
func NewFS(d *Disk, mode int) fs.FS {
	f := SimFS{d}
	switch mode & 3 {
	case 1:
		return simFSStat{f}
	case 2:
		return simFSRead{f}
	case 3:
		return simFSBoth{f}
	}
	return f
}

func (f SimFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, pathErr("open", name, fs.ErrInvalid)
	}
	h, err := f.D.Open(name)
	if err != nil {
		return nil, err
	}
	return h, nil
}

func stat(d *Disk, name string) (fs.FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, pathErr("stat", name, fs.ErrInvalid)
	}
	return d.Stat(name)
}
func read(d *Disk, name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, pathErr("readfile", name, fs.ErrInvalid)
	}
	return d.ReadFile(name)
}

func (f simFSStat) Stat(name string) (fs.FileInfo, error) { return stat(f.D, name) }
func (f simFSRead) ReadFile(name string) ([]byte, error)  { return read(f.D, name) }
func (f simFSBoth) Stat(name string) (fs.FileInfo, error) { return stat(f.D, name) }
func (f simFSBoth) ReadFile(name string) ([]byte, error)  { return read(f.D, name) }

type subFS struct {
	d   *Disk
	dir string
}

// SubFS is os.DirFS over the simulated disk.
func SubFS(d *Disk, dir string) fs.FS { return subFS{d, dir} }

func (f subFS) path(op, name string) (string, error) {
	if !fs.ValidPath(name) {
		return "", pathErr(op, name, fs.ErrInvalid)
	}
	if name == "." {
		return f.dir, nil
	}
	return f.dir + "/" + name, nil
}
func (f subFS) Open(name string) (fs.File, error) {
	p, err := f.path("open", name)
	if err != nil {
		return nil, err
	}
	h, err := f.d.Open(p)
	if err != nil {
		return nil, err
	}
	return h, nil
}
func (f subFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := f.path("readdir", name)
	if err != nil {
		return nil, err
	}
	return f.d.ReadDir(p)
}
func (f subFS) Stat(name string) (fs.FileInfo, error) {
	p, err := f.path("stat", name)
	if err != nil {
		return nil, err
	}
	return f.d.Stat(p)
}
func (f subFS) ReadFile(name string) ([]byte, error) {
	p, err := f.path("readfile", name)
	if err != nil {
		return nil, err
	}
	return f.d.ReadFile(p)
}

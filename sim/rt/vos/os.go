package os

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	rt "github.com/leonelquinteros/gotext/vsimrt"
)

// simRoot is the prefix of the simulated file system; everything else goes to the
// real one, except for the default library of package gotext. A path that is relative is relative to Cwd when Cwd is set.
const simRoot = "/vsim/"

func abs(p string) (string, bool) {
	if rt.Cwd != "" && !filepath.IsAbs(p) {
		p = filepath.Join(rt.Cwd, p)
	}
	if strings.HasPrefix(p, simRoot) || p+"/" == simRoot || strings.HasPrefix(p, "/usr/local/share/locale") {
		return filepath.Clean(p), true
	}
	return p, false
}

// Simulated reports whether p is on the simulated disk.
func Simulated(p string) bool { _, sim := abs(p); return sim }

// Getwd is the simulated process's directory, if it has one.
func Getwd() (string, error) {
	if rt.Cwd != "" {
		return rt.Cwd, nil
	}
	return os.Getwd()
}

// File stands for os.File. Files outside the simulated disk are real.
type File struct {
	*os.File
	h *rt.Handle
}

func wrap(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{File: f}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p, sim := abs(name)
	if !sim {
		return wrap(os.OpenFile(p, flag, perm))
	}
	h, err := rt.TheDisk.OpenFile(p, flag)
	if err != nil {
		return nil, err
	}
	return &File{h: h}, nil
}

func (f *File) Read(b []byte) (int, error) {
	if f.h == nil {
		return f.File.Read(b)
	}
	return f.h.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.h == nil {
		return f.File.ReadAt(b, off)
	}
	return f.h.ReadAt(b, off)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if f.h == nil {
		return f.File.ReadFrom(r)
	}
	return io.Copy(struct{ io.Writer }{f.h}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if f.h == nil {
		return f.File.WriteTo(w)
	}
	return io.Copy(w, struct{ io.Reader }{f.h})
}
func (f *File) Write(b []byte) (int, error) {
	if f.h == nil {
		return f.File.Write(b)
	}
	return f.h.Write(b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.h == nil {
		return f.File.WriteAt(b, off)
	}
	if _, err := f.h.Seek(off, io.SeekStart); err != nil {
		return 0, err
	}
	return f.h.Write(b)
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.h == nil {
		return f.File.Seek(off, whence)
	}
	return f.h.Seek(off, whence)
}
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.h == nil {
		return f.File.Close()
	}
	return f.h.Close()
}
func (f *File) Sync() error {
	if f.h == nil {
		return f.File.Sync()
	}
	return f.h.Sync()
}
func (f *File) Truncate(n int64) error {
	if f.h == nil {
		return f.File.Truncate(n)
	}
	return f.h.Truncate(int(n))
}
func (f *File) Stat() (fs.FileInfo, error) {
	if f.h == nil {
		return f.File.Stat()
	}
	return f.h.Stat()
}
func (f *File) Name() string {
	if f.h == nil {
		return f.File.Name()
	}
	return f.h.Name()
}
func (f *File) Fd() uintptr {
	if f.h == nil {
		return f.File.Fd()
	}
	return 3
}
func (f *File) Chmod(m fs.FileMode) error {
	if f.h == nil {
		return f.File.Chmod(m)
	}
	return nil
}
func (f *File) Chown(u, g int) error {
	if f.h == nil {
		return f.File.Chown(u, g)
	}
	return nil
}
func (f *File) SetDeadline(t time.Time) error { return nil }
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if f.h == nil {
		return f.File.ReadDir(n)
	}
	return ReadDir(f.h.Name())
}
func (f *File) Readdirnames(n int) ([]string, error) {
	if f.h == nil {
		return f.File.Readdirnames(n)
	}
	es, err := ReadDir(f.h.Name())
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}

func Stat(name string) (fs.FileInfo, error) {
	if p, sim := abs(name); !sim {
		return os.Stat(p)
	} else {
		return rt.TheDisk.Stat(p)
	}
}
func Lstat(name string) (fs.FileInfo, error) {
	if p, sim := abs(name); !sim {
		return os.Lstat(p)
	} else {
		return rt.TheDisk.Stat(p)
	}
}
func ReadFile(name string) ([]byte, error) {
	if p, sim := abs(name); !sim {
		return os.ReadFile(p)
	} else {
		return rt.TheDisk.ReadFile(p)
	}
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	p, sim := abs(name)
	if !sim {
		return os.WriteFile(p, data, perm)
	}
	f, err := OpenFile(p, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}
func Mkdir(name string, perm fs.FileMode) error {
	if p, sim := abs(name); !sim {
		return os.Mkdir(p, perm)
	} else {
		return rt.TheDisk.MkdirOp(p, false)
	}
}
func MkdirAll(name string, perm fs.FileMode) error {
	if p, sim := abs(name); !sim {
		return os.MkdirAll(p, perm)
	} else {
		return rt.TheDisk.MkdirOp(p, true)
	}
}
func Remove(name string) error {
	if p, sim := abs(name); !sim {
		return os.Remove(p)
	} else {
		return rt.TheDisk.RemoveOp(p)
	}
}
func RemoveAll(name string) error {
	p, sim := abs(name)
	if !sim {
		return os.RemoveAll(p)
	}
	for _, q := range rt.TheDisk.Names() {
		if q == p || strings.HasPrefix(q, p+"/") {
			if err := rt.TheDisk.RemoveOp(q); err != nil {
				return err
			}
		}
	}
	return nil
}
func Rename(a, b string) error {
	p, sim := abs(a)
	q, sim2 := abs(b)
	if !sim && !sim2 {
		return os.Rename(p, q)
	}
	if sim != sim2 {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EXDEV}
	}
	return rt.TheDisk.RenameOp(p, q)
}
func Truncate(name string, n int64) error {
	p, sim := abs(name)
	if !sim {
		return os.Truncate(p, n)
	}
	f, err := OpenFile(p, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	p, sim := abs(dir)
	if !sim {
		return wrap(os.CreateTemp(p, pattern))
	}
	pre, suf, ok := strings.Cut(pattern, "*")
	if !ok {
		pre, suf = pattern, ""
	}
	for i := 100001; ; i++ {
		name := filepath.Join(p, pre+itoa(i)+suf)
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0o600)
		if err != nil && os.IsExist(err) {
			continue
		}
		return f, err
	}
}
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = os.TempDir()
	}
	p, sim := abs(dir)
	if !sim {
		return os.MkdirTemp(p, pattern)
	}
	name := filepath.Join(p, strings.ReplaceAll(pattern, "*", "")+itoa(rt.TheDisk.Ops+100000))
	return name, Mkdir(name, 0o700)
}
func itoa(i int) string {
	if i == 0 {
		return ""
	}
	return itoa(i/10) + string(rune('0'+i%10))
}
func ReadDir(name string) ([]fs.DirEntry, error) {
	p, sim := abs(name)
	if !sim {
		return os.ReadDir(p)
	}
	return rt.TheDisk.ReadDir(p)
}

// DirFS is os.DirFS; below simRoot it is a file system over the simulated disk.
func DirFS(dir string) fs.FS {
	p, sim := abs(dir)
	if !sim {
		return os.DirFS(p)
	}
	return rt.SubFS(rt.TheDisk, p)
}

// Exit ends the process.
func Exit(code int) {
	if rt.OnExit != nil {
		rt.OnExit(code)
	}
	os.Exit(code)
}

func Chmod(name string, m fs.FileMode) error {
	if p, sim := abs(name); !sim {
		return os.Chmod(p, m)
	} else {
		_, err := rt.TheDisk.Peek(p)
		return err
	}
}
func Chown(name string, u, g int) error {
	if p, sim := abs(name); !sim {
		return os.Chown(p, u, g)
	} else {
		_, err := rt.TheDisk.Peek(p)
		return err
	}
}
func Chtimes(name string, a, m time.Time) error {
	if p, sim := abs(name); !sim {
		return os.Chtimes(p, a, m)
	} else {
		_, err := rt.TheDisk.Peek(p)
		return err
	}
}

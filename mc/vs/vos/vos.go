// Package vos stands for the file operations of package os. Under the
// scheduler of package vs every operation is a point where another task may go
// on, where the operation may fail and where the process may crash; a write
// may also be cut short at any byte. Nothing outside Root is changed.
package vos

import (
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"ecksbee.com/telefacts/verifvs"
)

var (
	// Root is the directory below which files may be changed.
	Root string
	// Faulty is the number of operations that failed on purpose.
	Faulty int
)

func inside(name string) bool {
	if Root == "" {
		return true
	}
	abs, err := filepath.Abs(name)
	if err != nil {
		return false
	}
	rel, err := filepath.Rel(Root, abs)
	return err == nil && rel != ".." && !strings.HasPrefix(rel, "../")
}

//go:norace
func count() { Faulty++ }

// enter is the beginning of an operation: it fails, crashes or goes on.
func enter(op, name string, changes bool) error {
	vs.Yield()
	n := 2
	if changes {
		n = 3
	}
	switch vs.Fault(n) {
	case 1:
		count()
		return &fs.PathError{Op: op, Path: name, Err: syscall.EIO}
	case 2:
		vs.Crash()
	}
	if changes && !inside(name) {
		return &fs.PathError{Op: op, Path: name, Err: syscall.EPERM}
	}
	return nil
}

func Stat(name string) (fs.FileInfo, error) {
	if err := enter("stat", name, false); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

func Lstat(name string) (fs.FileInfo, error) {
	if err := enter("lstat", name, false); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}

func Mkdir(name string, perm fs.FileMode) error {
	if err := enter("mkdir", name, true); err != nil {
		return err
	}
	return os.Mkdir(name, perm)
}

func MkdirAll(name string, perm fs.FileMode) error {
	if err := enter("mkdir", name, true); err != nil {
		return err
	}
	return os.MkdirAll(name, perm)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = filepath.Join(Root, "tmp")
		os.MkdirAll(dir, 0o755)
	}
	if err := enter("mkdir", dir, true); err != nil {
		return "", err
	}
	return os.MkdirTemp(dir, pattern)
}

func Chmod(name string, mode fs.FileMode) error {
	if err := enter("chmod", name, true); err != nil {
		return err
	}
	return os.Chmod(name, mode)
}

func Rename(from, to string) error {
	if err := enter("rename", from, true); err != nil {
		return err
	}
	if !inside(to) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EPERM}
	}
	return os.Rename(from, to)
}

func Link(from, to string) error {
	if err := enter("link", to, true); err != nil {
		return err
	}
	return os.Link(from, to)
}

func Remove(name string) error {
	if err := enter("remove", name, true); err != nil {
		return err
	}
	return os.Remove(name)
}

func RemoveAll(name string) error {
	if err := enter("remove", name, true); err != nil {
		return err
	}
	return os.RemoveAll(name)
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	if err := enter("open", name, false); err != nil {
		return nil, err
	}
	return os.ReadDir(name)
}

// File is an open file.
type File struct {
	f     *os.File
	name  string
	dirty bool // written since the last Sync
}

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if err := enter("open", name, flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{f: f, name: name}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = filepath.Join(Root, "tmp")
		os.MkdirAll(dir, 0o755)
	}
	if err := enter("open", dir, true); err != nil {
		return nil, err
	}
	f, err := os.CreateTemp(dir, pattern)
	if err != nil {
		return nil, err
	}
	return &File{f: f, name: f.Name()}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.f.Close()
	if err := enter("read", name, false); err != nil {
		return nil, err
	}
	return io.ReadAll(f.f)
}

func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func (f *File) bad() error {
	if f == nil || f.f == nil {
		return os.ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Read(b []byte) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	if err := enter("read", f.name, false); err != nil {
		return 0, err
	}
	return f.f.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	return f.f.ReadAt(b, off)
}

// Write may fail or crash after any number of bytes.
func (f *File) Write(b []byte) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	f.dirty = true
	vs.Yield()
	k := vs.Fault(1 + 2*(len(b)+1))
	if k == 0 {
		return f.f.Write(b)
	}
	k--
	n, _ := f.f.Write(b[:k/2])
	if k%2 == 1 {
		vs.Crash()
	}
	count()
	return n, &fs.PathError{Op: "write", Path: f.name, Err: syscall.ENOSPC}
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	if err := enter("write", f.name, true); err != nil {
		return 0, err
	}
	return f.f.WriteAt(b, off)
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.bad(); err != nil {
		return 0, err
	}
	return f.f.Seek(off, whence)
}

func (f *File) Truncate(n int64) error {
	if err := f.bad(); err != nil {
		return err
	}
	if err := enter("truncate", f.name, true); err != nil {
		return err
	}
	return f.f.Truncate(n)
}

func (f *File) Sync() error {
	if err := f.bad(); err != nil {
		return err
	}
	if err := enter("sync", f.name, true); err != nil {
		return err
	}
	f.dirty = false
	return nil
}

func (f *File) Chmod(mode fs.FileMode) error {
	if err := f.bad(); err != nil {
		return err
	}
	if err := enter("chmod", f.name, true); err != nil {
		return err
	}
	return f.f.Chmod(mode)
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.bad(); err != nil {
		return nil, err
	}
	if err := enter("stat", f.name, false); err != nil {
		return nil, err
	}
	return f.f.Stat()
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := f.bad(); err != nil {
		return nil, err
	}
	return f.f.ReadDir(n)
}

func (f *File) SetDeadline(t time.Time) error { return f.f.SetDeadline(t) }
func (f *File) Fd() uintptr                   { return f.f.Fd() }

// Close may report that what was written did not reach the disk; what is lost
// is then the second half of the file, unless it was synced.
func (f *File) Close() error {
	if err := f.bad(); err != nil {
		return err
	}
	vs.Yield()
	switch vs.Fault(3) {
	case 1:
		count()
		if i, err := f.f.Stat(); err == nil && f.dirty && inside(f.name) {
			os.Truncate(f.name, i.Size()/2)
		}
		f.f.Close()
		return &fs.PathError{Op: "close", Path: f.name, Err: syscall.EIO}
	case 2:
		vs.Crash()
	}
	return f.f.Close()
}

// Package sos stands in for package os in the command line tool: its files
// live on a simulated disk, and ending the process ends the simulated one.
package sos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"
	"time"

	"simverif/rt"
)

// Disk is a simulated disk. Before, when set, is asked before every operation:
// it decides how many of n bytes the operation may handle and the error it
// ends with.
type Disk struct {
	Files  map[string]*Inode
	Dirs   map[string]bool
	Before func(op, name string, off int64, n int) (int, error)
	// Lost tells how many bytes at the end of a file never reach the disk
	// when it is closed.
	Lost  func(name string, size int) int
	open  []*File
	wrote map[string]bool
	tmp   int
}

// Inode ...
type Inode struct {
	Data []byte
	Mode fs.FileMode
}

// NewDisk ...
func NewDisk() *Disk {
	return &Disk{Files: map[string]*Inode{}, Dirs: map[string]bool{".": true, "/": true, "/tmp": true}}
}

// Cur is the disk in use.
var Cur = NewDisk()

// ExitCode is the panic value with which the simulated process ends.
type ExitCode int

var wd, _ = os.Getwd()

func clean(name string) string {
	if name == "" {
		return ""
	}
	if wd != "" && wd != "/" && (name == wd || strings.HasPrefix(name, wd+"/")) {
		name = "." + name[len(wd):]
	}
	return path.Clean(name)
}

func (d *Disk) ask(op, name string, off int64, n int) (int, error) {
	if op == "read" {
		rt.IO(-20)
	} else {
		rt.Y(-20)
	}
	if d.Before == nil {
		return n, nil
	}
	return d.Before(op, name, off, n)
}

func perr(op, name string, err error) error {
	if err == nil {
		return nil
	}
	if err == io.EOF {
		return err
	}
	return &fs.PathError{Op: op, Path: name, Err: err}
}

// MkdirAll makes a folder of the disk.
func (d *Disk) MkdirAll(name string) {
	for name = clean(name); name != "." && name != "/"; name = path.Dir(name) {
		d.Dirs[name] = true
	}
}

// End ends the simulated process: the kernel closes what it left open.
func (d *Disk) End() {
	for _, f := range d.open {
		if !f.done {
			f.done = true
			d.lose(f)
		}
	}
	d.open = nil
}

func (d *Disk) lose(f *File) {
	if f.wrote && d.Lost != nil {
		if k := d.Lost(f.key, len(f.in.Data)); k > 0 {
			f.in.Data = f.in.Data[:max(0, len(f.in.Data)-k)]
		}
	}
}

// File ...
type File struct {
	d     *Disk
	in    *Inode
	name  string
	key   string
	flag  int
	pos   int64
	wrote bool
	done  bool
	std   bool
	dir   bool
}

// std files swallow everything
var (
	Stdin  = &File{std: true, name: "/dev/stdin"}
	Stdout = &File{std: true, name: "/dev/stdout"}
	Stderr = &File{std: true, name: "/dev/stderr"}
)

// OpenFile ...
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	d := Cur
	key := clean(name)
	op := "open"
	if flag&(os.O_CREATE|os.O_TRUNC|os.O_WRONLY|os.O_RDWR) != 0 {
		op = "create"
	}
	if _, err := d.ask(op, key, 0, 0); err != nil {
		return nil, perr("open", name, err)
	}
	if key == "" {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	if d.Dirs[key] {
		if op == "create" {
			return nil, perr("open", name, errIsDir)
		}
		f := &File{d: d, name: name, key: key, dir: true}
		return f, nil
	}
	in := d.Files[key]
	switch {
	case in == nil && flag&os.O_CREATE == 0, in == nil && !d.Dirs[path.Dir(key)]:
		return nil, perr("open", name, fs.ErrNotExist)
	case in == nil:
		in = &Inode{Mode: perm & 0o777}
		d.Files[key] = in
	case flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0:
		return nil, perr("open", name, fs.ErrExist)
	}
	if flag&os.O_TRUNC != 0 {
		in.Data = nil
	}
	f := &File{d: d, in: in, name: name, key: key, flag: flag}
	d.open = append(d.open, f)
	return f, nil
}

// Create ...
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// Open ...
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// CreateTemp ...
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	for {
		Cur.tmp++
		n := strconv.Itoa(Cur.tmp)
		name := pattern + n
		if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
			name = pattern[:i] + n + pattern[i+1:]
		}
		name = path.Join(dir, name)
		if Cur.Files[clean(name)] == nil {
			return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
		}
	}
}

func (f *File) usable(op string) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.done {
		return perr(op, f.name, fs.ErrClosed)
	}
	if f.dir {
		return perr(op, f.name, errIsDir)
	}
	return nil
}

// Name ...
func (f *File) Name() string { return f.name }

// Fd is of no use here.
func (f *File) Fd() uintptr { return ^uintptr(0) }

// Close ...
func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.done {
		return perr("close", f.name, fs.ErrClosed)
	}
	if f.std || f.dir {
		return nil
	}
	op := "close"
	if f.wrote {
		op = "wclose"
	}
	_, err := f.d.ask(op, f.key, 0, 0)
	f.done = true
	f.d.lose(f)
	return perr("close", f.name, err)
}

// Read ...
func (f *File) Read(p []byte) (int, error) {
	if err := f.usable("read"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, io.EOF
	}
	n, err := f.readAt(p, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

// ReadAt ...
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if err := f.usable("read"); err != nil {
		return 0, err
	}
	if off < 0 {
		return 0, perr("readat", f.name, fs.ErrInvalid)
	}
	if f.std {
		return 0, io.EOF
	}
	return f.readAt(p, off)
}

func (f *File) readAt(p []byte, off int64) (int, error) {
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, fs.ErrPermission)
	}
	if len(p) == 0 {
		return 0, nil
	}
	n, err := f.d.ask("read", f.key, off, len(p))
	if off < int64(len(f.in.Data)) {
		n = copy(p[:n], f.in.Data[off:])
	} else {
		n = 0
	}
	if err != nil {
		return n, perr("read", f.name, err)
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// Write ...
func (f *File) Write(p []byte) (int, error) {
	if err := f.usable("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(p), nil
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.in.Data))
	}
	n, err := f.writeAt(p, f.pos)
	f.pos += int64(n)
	return n, err
}

// WriteAt ...
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.usable("write"); err != nil {
		return 0, err
	}
	if f.std {
		return len(p), nil
	}
	return f.writeAt(p, off)
}

func (f *File) writeAt(p []byte, off int64) (int, error) {
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, fs.ErrPermission)
	}
	f.wrote = true
	n, err := f.d.ask("write", f.key, off, len(p))
	if end := off + int64(n); end > int64(len(f.in.Data)) && n > 0 {
		f.in.Data = append(f.in.Data, make([]byte, end-int64(len(f.in.Data)))...)
	}
	if n > 0 {
		copy(f.in.Data[off:], p[:n])
	}
	if err == nil && n < len(p) {
		err = io.ErrShortWrite
	}
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

// WriteString ...
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom ...
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// WriteTo ...
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

// Seek ...
func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.usable("seek"); err != nil {
		return 0, err
	}
	if f.std {
		return 0, nil
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.in.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, fs.ErrInvalid)
	}
	f.pos = off
	return off, nil
}

// Truncate ...
func (f *File) Truncate(n int64) error {
	if err := f.usable("truncate"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	if _, err := f.d.ask("truncate", f.key, n, 0); err != nil {
		return perr("truncate", f.name, err)
	}
	f.wrote = true
	b := make([]byte, n)
	copy(b, f.in.Data)
	f.in.Data = b
	return nil
}

// Sync ...
func (f *File) Sync() error {
	if err := f.usable("sync"); err != nil {
		return err
	}
	if f.std {
		return nil
	}
	_, err := f.d.ask("sync", f.key, 0, 0)
	return perr("sync", f.name, err)
}

// Chmod ...
func (f *File) Chmod(m FileMode) error {
	if f.in != nil {
		f.in.Mode = m
	}
	return nil
}

// Stat ...
func (f *File) Stat() (FileInfo, error) {
	if f == nil || f.done {
		return nil, fs.ErrClosed
	}
	if f.std {
		return info{path.Base(f.name), 0, fs.ModeCharDevice}, nil
	}
	if _, err := f.d.ask("stat", f.key, 0, 0); err != nil {
		return nil, perr("stat", f.name, err)
	}
	if f.dir {
		return info{path.Base(f.key), 0, fs.ModeDir | 0o755}, nil
	}
	return info{path.Base(f.key), int64(len(f.in.Data)), f.in.Mode}, nil
}

// SetDeadline and its kind are not supported by files.
func (f *File) SetDeadline(time.Time) error { return ErrNoDeadline }

type info struct {
	name string
	size int64
	mode fs.FileMode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

// Stat ...
func Stat(name string) (FileInfo, error) {
	key := clean(name)
	if _, err := Cur.ask("stat", key, 0, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	if Cur.Dirs[key] {
		return info{path.Base(key), 0, fs.ModeDir | 0o755}, nil
	}
	if in := Cur.Files[key]; in != nil {
		return info{path.Base(key), int64(len(in.Data)), in.Mode}, nil
	}
	return nil, perr("stat", name, fs.ErrNotExist)
}

// Lstat ...
func Lstat(name string) (FileInfo, error) { return Stat(name) }

// SameFile ...
func SameFile(a, b FileInfo) bool { return a == b }

// ReadFile ...
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile ...
func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Remove ...
func Remove(name string) error {
	key := clean(name)
	if _, err := Cur.ask("remove", key, 0, 0); err != nil {
		return perr("remove", name, err)
	}
	if Cur.Files[key] == nil && !Cur.Dirs[key] {
		return perr("remove", name, fs.ErrNotExist)
	}
	delete(Cur.Files, key)
	delete(Cur.Dirs, key)
	return nil
}

// RemoveAll ...
func RemoveAll(name string) error {
	key := clean(name)
	for k := range Cur.Files {
		if k == key || strings.HasPrefix(k, key+"/") {
			delete(Cur.Files, k)
		}
	}
	for k := range Cur.Dirs {
		if k == key || strings.HasPrefix(k, key+"/") {
			delete(Cur.Dirs, k)
		}
	}
	return nil
}

// Rename ...
func Rename(from, to string) error {
	a, b := clean(from), clean(to)
	if _, err := Cur.ask("rename", b, 0, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	in := Cur.Files[a]
	if in == nil || !Cur.Dirs[path.Dir(b)] {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: fs.ErrNotExist}
	}
	if Cur.Dirs[b] {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: fs.ErrExist}
	}
	delete(Cur.Files, a)
	Cur.Files[b] = in
	return nil
}

// Truncate ...
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

// Mkdir ...
func Mkdir(name string, _ FileMode) error {
	key := clean(name)
	if Cur.Dirs[key] || Cur.Files[key] != nil {
		return perr("mkdir", name, fs.ErrExist)
	}
	if !Cur.Dirs[path.Dir(key)] {
		return perr("mkdir", name, fs.ErrNotExist)
	}
	Cur.Dirs[key] = true
	return nil
}

// MkdirAll ...
func MkdirAll(name string, _ FileMode) error {
	Cur.MkdirAll(name)
	return nil
}

// MkdirTemp ...
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	Cur.tmp++
	name := path.Join(dir, strings.ReplaceAll(pattern, "*", "")+strconv.Itoa(Cur.tmp))
	return name, Mkdir(name, 0o700)
}

// ReadDir ...
func ReadDir(name string) ([]DirEntry, error) {
	key := clean(name)
	if !Cur.Dirs[key] {
		return nil, perr("open", name, fs.ErrNotExist)
	}
	var l []DirEntry
	for k, in := range Cur.Files {
		if path.Dir(k) == key {
			l = append(l, fs.FileInfoToDirEntry(info{path.Base(k), int64(len(in.Data)), in.Mode}))
		}
	}
	sort.Slice(l, func(a, b int) bool { return l[a].Name() < l[b].Name() })
	return l, nil
}

// Chmod ...
func Chmod(name string, m FileMode) error {
	if in := Cur.Files[clean(name)]; in != nil {
		in.Mode = m
		return nil
	}
	return perr("chmod", name, fs.ErrNotExist)
}

// Exit ends the simulated process.
func Exit(code int) { panic(ExitCode(code)) }

// Getwd ...
func Getwd() (string, error) { return wd, nil }

// TempDir ...
func TempDir() string { return "/tmp" }

// Getenv and its kind find nothing: the simulated process has no environment.
func Getenv(string) string                          { return "" }
func LookupEnv(string) (string, bool)               { return "", false }
func Environ() []string                             { return nil }
func Getpid() int                                   { return 2 }
func Hostname() (string, error)                     { return "sim", nil }
func Executable() (string, error)                   { return "/bin/tool", nil }
func UserHomeDir() (string, error)                  { return "/", nil }
func Expand(s string, f func(string) string) string { return os.Expand(s, f) }
func ExpandEnv(s string) string                     { return os.Expand(s, Getenv) }

// DirFS ...
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	f, err := Open(path.Join(string(d), name))
	if err != nil {
		return nil, err
	}
	return f, nil
}

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"simverif/rt"
	"simverif/xos"
)

// Fault is one injected fault (or legal but unusual behaviour) of the
// environment. T names its kind, the prefix the component it belongs to:
//
//	w.err    the destination accepts At bytes and fails for good
//	w.once   the destination fails once at byte At, then works again
//	w.short  one write at byte At is short without an error, then it works
//	w.full   at byte At the disk is full: short write with an error, for good
//	w.zero   the write at byte At accepts nothing, without an error
//	w.crash  the process dies after At bytes were accepted
//	w.chunk  (legal) nothing wrong, only counted
//	t.open   opening the I-th template file fails
//	t.read   reading the I-th template file fails after N bytes
//	t.once   like t.read, but only the first time
//	t.stat   asking for the state of the I-th template file fails; it does no
//	         harm to a save that does not ask
//	t.close  closing the I-th template file reports an error; a save may
//	         mention it or not
//	t.short  (legal) template reads return at most N bytes
//	t.zero   (legal) every other template read returns 0, nil
//	t.eof    (legal) the last template read returns data together with EOF
//	s.err    the At-th read of the source storage and all later ones fail
//	s.once   the At-th read of the source storage fails
//	s.trunc  the source storage ends at byte At
//	s.flip   bit N of byte At inside of the stored part I flips
//	s.sector 512 bytes from At inside of the stored part I become zero
//	p.*      faults of reading a picture file: see picHook
type Fault struct {
	T string `json:"t"`
	I int    `json:"i,omitempty"`
	N int64  `json:"n,omitempty"`
	// At is a byte offset or call number; when Rel is set it is in millionths
	// of the size of what a healthy run would have written.
	At  int64 `json:"at,omitempty"`
	Rel bool  `json:"rel,omitempty"`
	// E picks the error that is reported
	E int `json:"e,omitempty"`
}

// err is the error the fault shows itself with.
func (f *Fault) err() error {
	e := errInjected
	if f.E > 0 {
		e = errKinds[f.E%len(errKinds)]
	}
	if f.T == "w.full" && f.E == 0 {
		e = errNoSpace
	}
	if e == io.EOF && !strings.HasPrefix(f.T, "w.") {
		e = io.ErrUnexpectedEOF // a reader that says EOF has not failed
	}
	return e
}

// path is the same error as the file functions of os report it.
func (f *Fault) path(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: f.err()} }

type timeoutError struct{}

func (timeoutError) Error() string   { return "injected: i/o timeout" }
func (timeoutError) Timeout() bool   { return true }
func (timeoutError) Temporary() bool { return true }

var errKinds = []error{
	errInjected, fs.ErrNotExist, fs.ErrPermission, fs.ErrClosed, fs.ErrExist, fs.ErrInvalid,
	io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrNoProgress, io.ErrClosedPipe, io.EOF,
	syscall.EINTR, syscall.EAGAIN, syscall.EIO, syscall.ENOSPC, syscall.EPIPE, syscall.ENOENT, syscall.ESTALE,
	timeoutError{}, os.ErrDeadlineExceeded, errors.ErrUnsupported,
	errors.New("expected"), errors.New("expected element type <w:t> but have <w:r>"),
}

var errInjected = errors.New("injected I/O error")

// errNoSpace looks like what a full disk gives.
var errNoSpace = errors.New("injected: no space left on device")

// crashed is the panic value with which the simulated process dies.
type crashed struct{}

// faultSet tracks which of the faults of one operation really happened.
type faultSet struct {
	list  []Fault
	fired []int
	stats map[string]int
}

func newFaultSet(l []Fault, stats map[string]int) *faultSet {
	return &faultSet{list: l, fired: make([]int, len(l)), stats: stats}
}

// fire notes that a fault happened. It may do so in a goroutine of the library.
//
//go:norace
func (fs *faultSet) fire(i int) { fs.fired[i]++ }

// tally counts the faults that happened, once the operation is over.
func (fs *faultSet) tally() {
	for i, f := range fs.list {
		if fs.fired[i] > 0 && fs.stats != nil {
			fs.stats[f.T]++
		}
	}
	fs.stats = nil
}

// harmful counts the faults that happened and that a save must report.
func (fs *faultSet) harmful() (n int) {
	for i, f := range fs.list {
		if fs.fired[i] > 0 && !legal(f.T) {
			n++
		}
	}
	return
}

func (fs *faultSet) anyFired(prefix string) bool {
	for i, f := range fs.list {
		if fs.fired[i] > 0 && strings.HasPrefix(f.T, prefix) {
			return true
		}
	}
	return false
}

// mayRecover tells whether a save may meet the fault, still deliver the whole
// package - by trying again, or because it can do without the answer - and
// report success.
func mayRecover(t string) bool {
	switch t {
	case "w.short", "w.zero", "w.once", "t.once", "t.stat", "t.close", "s.once":
		return true
	}
	return false
}

func legal(t string) bool {
	switch t {
	case "t.short", "t.zero", "t.eof", "w.chunk":
		return true
	}
	return false
}

// dest is the destination of a save. accepted holds what it acknowledged.
type dest struct {
	fs       *faultSet
	accepted []byte
	calls    int
	done     []bool
	failed   error
}

func newDest(f *faultSet) *dest { return &dest{fs: f, done: make([]bool, len(f.list))} }

// Write ...
func (d *dest) Write(p []byte) (int, error) {
	rt.Y(-10)
	d.calls++
	if d.failed != nil {
		return 0, d.failed
	}
	pos := int64(len(d.accepted))
	best, at := -1, int64(0)
	for i, f := range d.fs.list {
		if d.done[i] || !strings.HasPrefix(f.T, "w.") || legal(f.T) {
			continue
		}
		if f.At < pos+int64(len(p)) && (best < 0 || f.At < at) {
			best, at = i, f.At
		}
	}
	if best < 0 {
		d.accepted = append(d.accepted, p...)
		return len(p), nil
	}
	n := at - pos
	if n < 0 {
		n = 0
	}
	f := d.fs.list[best]
	d.done[best] = true
	d.fs.fire(best)
	if f.T == "w.zero" {
		n = 0
	}
	d.accepted = append(d.accepted, p[:n]...)
	switch f.T {
	case "w.err":
		d.failed = f.err()
		return int(n), d.failed
	case "w.full":
		d.failed = f.err()
		return int(n), d.failed
	case "w.once":
		return int(n), f.err()
	case "w.crash":
		panic(crashed{})
	}
	return int(n), nil // short without an error
}

// tmplFS is a template file system the simulator owns.
type tmplFS struct {
	files map[string][]byte
	dir   string
	list  []string // names the document was told to use

	able   bool      // files can also be sought and write themselves, as real ones
	shared bool      // used by several worlds: no faults, no accounting
	fs     *faultSet // faults of the save in progress, nil when healthy
	once   []bool
	opened int
	closed int
	reuse  int // uses of a file after it was closed
	double int // closes of a closed file
}

func (t *tmplFS) arm(f *faultSet) {
	t.fs = f
	if f != nil {
		t.once = make([]bool, len(f.list))
	}
}

func (t *tmplFS) index(name string) int {
	n := strings.TrimPrefix(name, t.dir)
	for i, l := range t.list {
		if l == n {
			return i
		}
	}
	return -1
}

// Open ...
//
//go:norace
func (t *tmplFS) Open(name string) (fs.File, error) {
	rt.Y(-11)
	idx := t.index(name)
	if t.fs != nil {
		for i, f := range t.fs.list {
			if f.T == "t.open" && len(t.list) > 0 && f.I%len(t.list) == idx {
				t.fs.fire(i)
				return nil, t.fs.list[i].path("open", name)
			}
		}
	}
	b, ok := t.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}
	}
	t.opened++
	f := &tmplFile{t: t, name: name, idx: idx, b: b}
	if t.able {
		return ableFile{f}, nil
	}
	return f, nil
}

// ableFS is a template file system that has what os.DirFS and embed.FS have.
type ableFS struct{ *tmplFS }

// ReadFile ...
func (t ableFS) ReadFile(name string) ([]byte, error) {
	f, err := t.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// Stat ...
func (t ableFS) Stat(name string) (fs.FileInfo, error) {
	f, err := t.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return f.Stat()
}

// ableFile is a template file that has what os.File has.
type ableFile struct{ *tmplFile }

// Seek ...
//
//go:norace
func (f ableFile) Seek(off int64, whence int) (int64, error) {
	rt.Y(-13)
	if f.done {
		f.t.reuse++
		return 0, fs.ErrClosed
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.b))
	}
	if off < 0 {
		return 0, fs.ErrInvalid
	}
	f.pos = int(min(off, int64(len(f.b))))
	return off, nil
}

// WriteTo ...
func (f ableFile) WriteTo(w io.Writer) (n int64, err error) {
	b := make([]byte, 1500)
	for {
		k, rerr := f.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
			if m < k {
				return n, io.ErrShortWrite
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

type tmplFile struct {
	t    *tmplFS
	name string
	idx  int
	b    []byte
	pos  int
	n    int
	done bool
}

// Stat ...
//
//go:norace
func (f *tmplFile) Stat() (fs.FileInfo, error) {
	if f.done {
		f.t.reuse++
		return nil, fs.ErrClosed
	}
	if s := f.t.fs; s != nil {
		for i, ft := range s.list {
			if ft.T == "t.stat" && len(f.t.list) > 0 && ft.I%len(f.t.list) == f.idx {
				s.fire(i)
				return nil, ft.path("stat", f.name)
			}
		}
	}
	return tmplInfo{f.name, int64(len(f.b))}, nil
}

// Close ...
//
//go:norace
func (f *tmplFile) Close() error {
	rt.Y(-12)
	if f.done {
		f.t.double++
		return fs.ErrClosed
	}
	f.done = true
	f.t.closed++
	if s := f.t.fs; s != nil {
		for i, ft := range s.list {
			if ft.T == "t.close" && len(f.t.list) > 0 && ft.I%len(f.t.list) == f.idx {
				s.fire(i)
				return ft.path("close", f.name)
			}
		}
	}
	return nil
}

// Read ...
//
//go:norace
func (f *tmplFile) Read(p []byte) (int, error) {
	rt.Y(-13)
	if f.done {
		f.t.reuse++
		return 0, fs.ErrClosed
	}
	f.n++
	max := len(p)
	eofWithData := false
	if s := f.t.fs; s != nil {
		for i, ft := range s.list {
			mine := len(f.t.list) > 0 && ft.I%len(f.t.list) == f.idx
			switch ft.T {
			case "t.read", "t.once":
				if !mine || (ft.T == "t.once" && f.t.once[i]) {
					continue
				}
				at := int(ft.N)
				if at > len(f.b) {
					at = len(f.b)
				}
				if f.pos >= at {
					f.t.once[i] = true
					s.fire(i)
					return 0, ft.path("read", f.name)
				}
				if f.pos+max > at {
					max = at - f.pos
				}
			case "t.short":
				if n := int(ft.N); n > 0 && max > n {
					max = n
					s.fire(i)
				}
			case "t.zero":
				if f.n%2 == 1 {
					s.fire(i)
					return 0, nil
				}
			case "t.eof":
				eofWithData = true
				s.fire(i)
			}
		}
	}
	if f.pos >= len(f.b) {
		return 0, io.EOF
	}
	n := copy(p[:max], f.b[f.pos:])
	f.pos += n
	if eofWithData && f.pos >= len(f.b) && n > 0 {
		return n, io.EOF
	}
	return n, nil
}

type tmplInfo struct {
	name string
	size int64
}

func (i tmplInfo) Name() string       { return path.Base(i.name) }
func (i tmplInfo) Size() int64        { return i.size }
func (i tmplInfo) Mode() fs.FileMode  { return 0o444 }
func (i tmplInfo) ModTime() time.Time { return time.Time{} }
func (i tmplInfo) IsDir() bool        { return false }
func (i tmplInfo) Sys() any           { return nil }

// storage is the durable medium a package is opened and lazily read from.
type storage struct {
	data  []byte
	reads int
	fs    *faultSet
	base  int // number of reads when the faults were armed
}

func (s *storage) arm(f *faultSet) {
	s.fs = f
	s.base = s.reads
}

// ReadAt ...
//
//go:norace
func (s *storage) ReadAt(p []byte, off int64) (int, error) {
	rt.IO(-14)
	s.reads++
	data := s.data
	if s.fs != nil {
		n := int64(s.reads - s.base)
		for i, f := range s.fs.list {
			switch f.T {
			case "s.err":
				if n >= f.At {
					s.fs.fire(i)
					return 0, f.err()
				}
			case "s.once":
				if n == f.At {
					s.fs.fire(i)
					// part of the data arrives
					k := 0
					if off >= 0 && off < int64(len(data)) {
						k = copy(p[:len(p)/2], data[off:])
					}
					return k, f.err()
				}
			case "s.trunc":
				if f.At < int64(len(data)) {
					if off+int64(len(p)) > f.At {
						s.fs.fire(i)
					}
					data = data[:f.At]
				}
			}
		}
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if off >= int64(len(data)) {
		return 0, io.EOF
	}
	n := copy(p, data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (s *storage) isShared(w *World) bool {
	for _, x := range w.sharedSt {
		if x == s {
			return true
		}
	}
	return false
}

// dataRange is where the stored bytes of one part lie.
type dataRange struct {
	name     string
	from, to int
}

// damage applies the faults that change stored bytes to a copy of the data.
// It returns the copy and the names of the parts that really changed.
func damage(data []byte, rs []dataRange, f *faultSet) ([]byte, []string) {
	var names []string
	out := data
	copied := false
	var usable []dataRange
	for _, r := range rs {
		if r.to > r.from {
			usable = append(usable, r)
		}
	}
	if len(usable) == 0 {
		return out, nil
	}
	for i, x := range f.list {
		if x.T != "s.flip" && x.T != "s.sector" {
			continue
		}
		if !copied {
			out = append([]byte(nil), data...)
			copied = true
		}
		r := usable[x.I%len(usable)]
		at := r.from + int(x.At%int64(r.to-r.from))
		switch x.T {
		case "s.flip":
			out[at] ^= 1 << uint(x.N&7)
			f.fire(i)
			names = append(names, r.name)
		case "s.sector":
			a := at &^ 511
			changed := false
			for k := a; k < a+512; k++ {
				if k < r.from || k >= r.to {
					continue
				}
				if out[k] != 0 {
					out[k] = 0
					changed = true
				}
			}
			if changed {
				f.fire(i)
				names = append(names, r.name)
			}
		}
	}
	if copied && bytes.Equal(out, data) {
		names = nil
	}
	return out, names
}

// picHook serves picture files from memory, with faults.
type picHook struct {
	files map[string][]byte
	fs    *faultSet
}

// mirror puts a picture file on the real disk (in the scratch directory the
// process is in), for a library that reads files in ways the seam does not
// cover. Errors while reading are played by a directory of that name.
func (h *picHook) mirror(name string) {
	if !xos.NeedDisk || name == "" || path.IsAbs(name) || strings.Contains(name, "..") {
		return
	}
	_ = os.RemoveAll(name)
	must(os.MkdirAll(path.Dir(name), 0o755))
	if h.fs != nil {
		for i, f := range h.fs.list {
			switch f.T {
			case "p.missing", "p.perm":
				h.fs.fire(i)
				return
			case "p.eio", "p.eioall":
				h.fs.fire(i)
				must(os.Mkdir(name, 0o755))
				return
			}
		}
	}
	must(os.WriteFile(name, h.files[name], 0o644))
}

// ReadFile is what the library's os.ReadFile is connected to.
func (h *picHook) ReadFile(name string) ([]byte, error, bool) {
	b, ok := h.files[name]
	if !ok {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}, true
	}
	if h.fs != nil {
		for i, f := range h.fs.list {
			n := int(f.At)
			if n > len(b) {
				n = len(b)
			}
			switch f.T {
			case "p.missing":
				h.fs.fire(i)
				return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrNotExist}, true
			case "p.perm":
				h.fs.fire(i)
				return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrPermission}, true
			case "p.eio": // part of the data arrives together with the error
				h.fs.fire(i)
				return append([]byte(nil), b[:n]...), f.path("read", name), true
			case "p.eioall": // all of it does
				h.fs.fire(i)
				return append([]byte(nil), b...), f.path("read", name), true
			}
		}
	}
	return append([]byte(nil), b...), nil, true
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func describeFaults(l []Fault) string {
	var sb strings.Builder
	for _, f := range l {
		fmt.Fprintf(&sb, " %s", f.T)
		if f.I != 0 {
			fmt.Fprintf(&sb, " i=%d", f.I)
		}
		if f.N != 0 {
			fmt.Fprintf(&sb, " n=%d", f.N)
		}
		if f.At != 0 || f.Rel {
			fmt.Fprintf(&sb, " at=%d", f.At)
		}
		if f.E != 0 {
			fmt.Fprintf(&sb, " (%v)", f.err())
		}
	}
	return sb.String()
}

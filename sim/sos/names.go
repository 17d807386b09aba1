package sos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"syscall"
)

// What package os has besides files.
type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	SyscallError = os.SyscallError
	LinkError    = os.LinkError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModePerm    = os.ModePerm
	ModeDir     = os.ModeDir
	ModeType    = os.ModeType
	ModeSymlink = os.ModeSymlink
	DevNull     = "/dev/null"

	PathSeparator     = '/'
	PathListSeparator = ':'

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone
	Interrupt           = os.Interrupt
	Kill                = os.Kill

	// Args are those of the simulated process.
	Args = []string{"tool"}

	// Discard is there for those who import this in place of io/ioutil.
	Discard = io.Discard

	errIsDir error = syscall.EISDIR
)

func IsNotExist(err error) bool   { return os.IsNotExist(err) }
func IsExist(err error) bool      { return os.IsExist(err) }
func IsPermission(err error) bool { return os.IsPermission(err) }
func IsTimeout(err error) bool    { return os.IsTimeout(err) }
func IsPathSeparator(c uint8) bool {
	return c == '/'
}
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }
func ReadAll(r io.Reader) ([]byte, error)       { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser       { return io.NopCloser(r) }
func TempFile(dir, pattern string) (*File, error) {
	return CreateTemp(dir, pattern)
}

// Link and Symlink are not there.
func Link(a, b string) error {
	return &os.LinkError{Op: "link", Old: a, New: b, Err: errors.ErrUnsupported}
}
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: errors.ErrUnsupported}
}

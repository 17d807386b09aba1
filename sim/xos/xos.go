// Package xos stands in for the one file-system call the library makes itself.
package xos

import (
	"os"

	"simverif/rt"
)

// Hook, when set, serves ReadFile. ok=false falls through to the real call.
var Hook func(name string) (data []byte, err error, ok bool)

// NeedDisk is set by instrumented code that reads files in ways other than
// ReadFile: the simulated files then have to exist for real.
var NeedDisk bool

// ReadFile is os.ReadFile behind the simulator's seam.
func ReadFile(name string) ([]byte, error) {
	rt.Y(-5)
	if Hook != nil {
		if b, err, ok := Hook(name); ok {
			return b, err
		}
	}
	return os.ReadFile(name)
}

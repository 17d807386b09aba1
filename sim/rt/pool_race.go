//go:build race

package rt

import "sync"

// The race-detecting build comes with a sync.Pool of its own, see
// stdover/pool.go.txt.
func init() { sync.SimTask(&current, &callers) }

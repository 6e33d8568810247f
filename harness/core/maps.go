//go:build vhmaps

package core

import _ "unsafe"

//go:linkname vhMapHook runtime.vhMapHook
var vhMapHook func(count int, b uint8, pc uintptr) uintptr

//go:linkname vhMapG runtime.vhMapG
var vhMapG uint64

//go:linkname vhGoid runtime.vhGoid
func vhGoid() uint64

// Iteration is an iteration over a map that was seen: how many different starts it has.
type Iteration struct {
	Starts int
	PC     uintptr
}

// WithMapStarts runs f with the starts of all iterations over maps of this goroutine decided by choose, which is given
// the number of the iteration among those that have a choice, and returns these iterations.
func WithMapStarts(choose func(i int, starts int) int, f func()) []Iteration {
	var seen []Iteration
	hook := func(count int, b uint8, pc uintptr) uintptr {
		if count < 2 {
			return 0
		}
		starts := count
		if b > 0 {
			starts = 8 << b
		}
		seen = append(seen, Iteration{starts, pc})
		return uintptr(choose(len(seen)-1, starts))
	}
	vhMapHook, vhMapG = hook, vhGoid()
	defer func() { vhMapG, vhMapHook = 0, nil }()
	f()
	return seen
}

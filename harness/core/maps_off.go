//go:build !vhmaps

package core

// Iteration is an iteration over a map that was seen: how many different starts it has.
type Iteration struct {
	Starts int
	PC     uintptr
}

// WithMapStarts needs the instrumented runtime.
func WithMapStarts(choose func(i int, starts int) int, f func()) []Iteration {
	panic("not instrumented")
}

//go:build !vhfs

package core

type FSOp struct {
	ID, Op, Path, To string
	Size             int
	Mut              bool
}

type FSPlan struct {
	Root, At, Act, Record string
	Cut, Errno            int
}

// WithFS is only there with the instrumented files of the Go distribution.
func WithFS(FSPlan, func()) ([]FSOp, bool) { panic("built without vhfs") }

func ArmFS() {}

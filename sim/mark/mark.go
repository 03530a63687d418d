// Package mark is compiled with the race detector's instrumentation where the rest of the simulator is not, so that
// stacks in its reports show where the code under test called into the simulator.
package mark

//go:noinline
func Call(f func()) { f() }

package simrt

import "xtormsim/mark"

// Hidden runs a part of the simulator on behalf of the code under test: the race detector sees neither how it
// synchronises nor takes its accesses for those of the caller.
func Hidden(f func()) {
	if !Race {
		f()
		return
	}
	mark.Call(func() {
		Hide()
		defer Unhide()
		f()
	})
}

func marked(f func()) {
	if !Race {
		f()
		return
	}
	mark.Call(f)
}

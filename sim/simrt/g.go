package simrt

// getg identifies the running goroutine.
func getg() uintptr

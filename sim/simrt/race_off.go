//go:build !race

package simrt

import "unsafe"

const Race = false

var Races int

func countRaces() {}

func Hide()                       {}
func Unhide()                     {}
func Acquire(unsafe.Pointer)      {}
func Release(unsafe.Pointer)      {}
func ReleaseMerge(unsafe.Pointer) {}
func ReadRange([]byte)            {}
func WriteRange([]byte)           {}

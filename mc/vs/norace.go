//go:build !race

package vs

import "unsafe"

const RaceBuild = false

func acquire(p unsafe.Pointer) {}
func release(p unsafe.Pointer) {}
func hide()                    {}
func show()                    {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return 0 }

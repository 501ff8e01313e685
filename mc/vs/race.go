//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

//go:norace
func acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func hide() { runtime.RaceDisable() }

//go:norace
func show() { runtime.RaceEnable() }

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

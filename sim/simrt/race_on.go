//go:build race && go1.24

package simrt

import (
	"runtime"
	"unsafe"
)

const RaceBuild = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

func raceRelease(p *uint32) { runtime.RaceReleaseMerge(unsafe.Pointer(p)) }
func raceAcquire(p *uint32) { runtime.RaceAcquire(unsafe.Pointer(p)) }

// HBRelease and HBAcquire order memory accesses, as a lock does.
func HBRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }
func HBAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

func RaceErrors() int { return runtime.RaceErrors() }

//go:build !race && go1.24

package simrt

import "unsafe"

const RaceBuild = false

func raceDisable()             {}
func raceEnable()              {}
func raceRelease(p *uint32)    {}
func raceAcquire(p *uint32)    {}
func HBRelease(unsafe.Pointer) {}
func HBAcquire(unsafe.Pointer) {}
func RaceErrors() int          { return 0 }

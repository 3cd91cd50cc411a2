//go:build !race

package simrt

import "unsafe"

const RaceEnabled = false

func raceOff() {}
func raceOn()  {}

func RaceAcquire(unsafe.Pointer)      {}
func RaceRelease(unsafe.Pointer)      {}
func RaceReleaseMerge(unsafe.Pointer) {}
func RaceErrors() int                 { return 0 }

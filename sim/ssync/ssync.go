// Package ssync stands in for package sync in the instrumented copy of vc-go. It is compiled with
// race instrumentation, unlike the rest of the simulator: a package that is compiled without it must
// not instantiate sync.Map and the like, since the linker could pick its copy for the whole program,
// which would hide their synchronisation from the race detector.
package ssync

import (
	"sync"

	"vcsim/simsync"
)

type (
	Mutex   = simsync.Mutex
	RWMutex = simsync.RWMutex
	Once    = simsync.Once
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Pool      = sync.Pool
	Map       = sync.Map
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Package simsync has the locks that stand in for those of package sync in the instrumented copy of
// vc-go: they are scheduling points of the simulator. Outside a simulated run they behave as ordinary
// locks.
package simsync

import (
	"sync"
	"unsafe"

	"vcsim/simrt"
)

// RWMutex is a cooperative reader/writer lock.
type RWMutex struct {
	mu      sync.Mutex // guards the fields below outside a simulated run
	writer  bool
	readers int
	waiting int // writers waiting: they keep new readers out, as in package sync
	wsem    int32
	rsem    int32
}

func (m *RWMutex) tryW() bool {
	m.mu.Lock()
	defer m.mu.Unlock()

	if m.writer || m.readers > 0 {
		return false
	}

	m.writer = true

	return true
}

func (m *RWMutex) tryR() bool {
	m.mu.Lock()
	defer m.mu.Unlock()

	if m.writer || m.waiting > 0 {
		return false
	}

	m.readers++

	return true
}

func (m *RWMutex) wait(n int) {
	m.mu.Lock()
	m.waiting += n
	m.mu.Unlock()
}

func (m *RWMutex) freeW() bool { return !m.writer && m.readers == 0 }
func (m *RWMutex) freeR() bool { return !m.writer && m.waiting == 0 }

func spin(try func() bool, free func() bool) {
	for !try() {
		if !simrt.Block(free) {
			yieldHost()
		}
	}
}

func (m *RWMutex) Lock() {
	simrt.Y(3)
	simrt.Hidden(func() {
		m.wait(1)
		spin(m.tryW, m.freeW)
		m.wait(-1)
	})
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
}

func (m *RWMutex) Unlock() {
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.wsem))
	simrt.Hidden(func() {
		m.mu.Lock()
		ok := m.writer
		m.writer = false
		m.mu.Unlock()

		if !ok {
			panic("sync: Unlock of unlocked RWMutex")
		}
	})
	simrt.Y(4)
}

func (m *RWMutex) RLock() {
	simrt.Y(5)
	simrt.Hidden(func() { spin(m.tryR, m.freeR) })
	simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
}

func (m *RWMutex) RUnlock() {
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.rsem))
	simrt.Hidden(func() {
		m.mu.Lock()
		ok := m.readers > 0
		m.readers--
		m.mu.Unlock()

		if !ok {
			panic("sync: RUnlock of unlocked RWMutex")
		}
	})
	simrt.Y(6)
}

func (m *RWMutex) TryLock() bool {
	var ok bool

	simrt.Hidden(func() { ok = m.tryW() })

	if ok {
		simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
		simrt.RaceAcquire(unsafe.Pointer(&m.rsem))
	}

	return ok
}

func (m *RWMutex) TryRLock() bool {
	var ok bool

	simrt.Hidden(func() { ok = m.tryR() })

	if ok {
		simrt.RaceAcquire(unsafe.Pointer(&m.wsem))
	}

	return ok
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex is a cooperative lock.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Once is a cooperative sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()

	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Package simrt is the simulator's runtime: the cooperative scheduler that decides every
// interleaving, the choice source every simulated decision is drawn from, and the hooks the
// instrumented copy of vc-go calls (statement yields, goroutine guards, the skewed clock).
//
// It is imported by the instrumented vc-go sources (through a build overlay) and by the harness,
// and imports nothing but the standard library. It is compiled without race instrumentation, and
// its hand-offs are invisible to the race detector (see race.go), so that the detector reports the
// races of the code under test on the simulated schedule and not merely on the host's.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	_ "unsafe" // go:linkname
)

//go:linkname runtimeSimGoid runtime.SimGoid
func runtimeSimGoid() uint64

//go:linkname runtimeSimSeed runtime.SimSeed
func runtimeSimSeed(s uint64)

// SeedRuntime makes map iteration order, select order and math/rand of the run a function of s.
func SeedRuntime(s uint64) { runtimeSimSeed(s); randState = s ^ 0x5851f42d4c957f2d }

var randState uint64

// Rand64 is the run's stream of random numbers for the code under test.
func Rand64() uint64 {
	randState += 0x9e3779b97f4a7c15
	z := randState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

// Chooser decides. n >= 1; the result is in [0,n). 0 is always the benign choice.
type Chooser interface {
	Choose(n int, label string) int
}

// Config of one simulated run's scheduler.
type Config struct {
	Chooser   Chooser
	PreemptOf int           // 1-in-N chance to preempt at an instrumented yield; 0 disables preemption
	HangAfter time.Duration // simulated time without progress after which the run counts as hung
	MaxSteps  int
	MaxYields int
}

type task struct {
	id      int
	goid    uint64
	name    string
	ch      chan struct{}
	waitFor func() bool
	skew    time.Duration
}

// Sched is the state of one simulated run.
type Sched struct {
	cfg     Config
	mu      sync.Mutex // guards tasks and gated: tasks woken by one timer tick arrive together
	tasks   []*task    // no maps here: the race detector sees those from inside the runtime
	gated   []*task
	nextID  int
	wake    chan struct{}
	done    chan struct{}
	live    int
	Steps   int // scheduling decisions taken
	Preempt int // preemptions among them
	Yields  int
	Hash    uint64 // hash of the schedule
	Hung    string
	Panics  []string
	free    bool
}

var cur atomic.Pointer[Sched]

// Active reports whether a simulated run is in progress.
func Active() bool { return cur.Load() != nil }

// Y is called by instrumented code before every statement.
func Y(site uint32) {
	s := cur.Load()
	if s == nil || s.free {
		return
	}

	s.Yields++

	if s.Yields > s.cfg.MaxYields {
		s.Hung = "the code under test executed so many statements without finishing that it counts as an endless loop"
		s.free = true

		panic(Abort{})
	}

	if len(s.gated) == 0 || s.cfg.PreemptOf <= 0 {
		return
	}

	if s.cfg.Chooser.Choose(s.cfg.PreemptOf, "y") != s.cfg.PreemptOf-1 || s.cfg.PreemptOf == 1 {
		return
	}

	s.Preempt++
	s.gate(s.me(), nil, uint64(site))
}

// YF is a mandatory scheduling point: after a go statement, or after an operation that may have blocked.
func YF(site uint32) {
	s := cur.Load()
	if s == nil || s.free {
		return
	}

	s.Yields++
	s.gate(s.me(), nil, uint64(site))
}

// Step is a mandatory scheduling point for harness code (simulated I/O).
func Step() { YF(0) }

func (s *Sched) me() *task {
	id := runtimeSimGoid()

	raceOff()
	s.mu.Lock()

	defer func() {
		s.mu.Unlock()
		raceOn()
	}()

	t := s.search(id)
	if t == nil {
		s.nextID++
		t = &task{id: s.nextID, goid: id, ch: make(chan struct{})}
		s.tasks = append(s.tasks, t)
	}

	return t
}

func (s *Sched) find(goid uint64) *task {
	raceOff()
	s.mu.Lock()

	t := s.search(goid)

	s.mu.Unlock()
	raceOn()

	return t
}

func (s *Sched) search(goid uint64) *task {
	for i := len(s.tasks) - 1; i >= 0; i-- {
		if s.tasks[i].goid == goid {
			return s.tasks[i]
		}
	}

	return nil
}

func (s *Sched) drop(goid uint64) {
	s.mu.Lock()
	defer s.mu.Unlock()

	for i := len(s.tasks) - 1; i >= 0; i-- {
		if s.tasks[i].goid == goid {
			s.tasks[i] = s.tasks[len(s.tasks)-1]
			s.tasks = s.tasks[:len(s.tasks)-1]

			return
		}
	}
}

// gate parks the calling task until the scheduler picks it.
func (s *Sched) gate(t *task, waitFor func() bool, site uint64) {
	raceOff()
	t.waitFor = waitFor

	s.mu.Lock()
	s.gated = append(s.gated, t)
	s.Hash += mix(0, uint64(t.id)<<32|site) // in any order
	s.mu.Unlock()

	select {
	case s.wake <- struct{}{}:
	default:
	}

	<-t.ch
	raceOn()
}

// Block parks the calling task until cond holds (evaluated by the scheduler).
func Block(cond func() bool) bool {
	s := cur.Load()
	if s == nil || s.free {
		return false
	}

	s.gate(s.me(), cond, 1)

	return true
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd

	return h ^ (h >> 33)
}

// Go starts a harness task.
func (s *Sched) Go(name string, f func()) {
	s.live++

	// known before it runs: which of several new goroutines runs first is not the simulator's choice
	raceOff()
	s.mu.Lock()
	s.nextID++
	t := &task{id: s.nextID, name: name, ch: make(chan struct{})}
	s.tasks = append(s.tasks, t)
	s.mu.Unlock()
	raceOn()

	go func() {
		raceOff()
		s.mu.Lock()
		t.goid = runtimeSimGoid()
		s.mu.Unlock()
		raceOn()

		defer func() {
			if p := recover(); p != nil {
				s.notePanic(fmt.Sprintf("task %s: %v\n%s", name, p, debug.Stack()))
			}

			raceOff()
			s.mu.Lock()
			s.live--
			s.mu.Unlock()
			s.drop(t.goid)

			select {
			case s.wake <- struct{}{}:
			default:
			}
			raceOn()
		}()

		s.gate(t, nil, 2)
		f()
	}()
}

func (s *Sched) notePanic(p string) { s.Panics = append(s.Panics, p) }

// Abort is what a task that never ends is ended with.
type Abort struct{}

func (Abort) String() string { return "statement budget exhausted (endless loop)" }

// GoGuard is deferred by instrumentation at the start of every goroutine vc-go starts: an escaping
// panic there would end the whole process, which the simulator records instead of suffering.
func GoGuard() {
	s := cur.Load()
	if s == nil {
		return
	}

	if p := recover(); p != nil {
		s.notePanic(fmt.Sprintf("goroutine started by the code under test (ends the process): %v\n%s", p, debug.Stack()))
	}

	raceOff()
	s.drop(runtimeSimGoid())
	raceOn()
}

// New prepares a run; Run drives it. Both are called from the root goroutine of a synctest bubble.
func New(cfg Config) *Sched {
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 2_000_000
	}

	if cfg.MaxYields == 0 {
		cfg.MaxYields = 60_000_000
	}

	if cfg.HangAfter == 0 {
		cfg.HangAfter = 1000 * time.Hour
	}

	return &Sched{cfg: cfg, wake: make(chan struct{}, 1)}
}

// Install makes s the current run.
func (s *Sched) Install() { cur.Store(s) }

// Uninstall ends the run; leftover tasks run free.
func (s *Sched) Uninstall() { cur.Store(nil) }

// Run schedules until every harness task has ended. quiesce is synctest.Wait.
func (s *Sched) Run(quiesce func()) {
	for {
		raceOff()
		quiesce()
		raceOn()

		select {
		case <-s.wake:
		default:
		}

		if s.live == 0 && len(s.gated) == 0 {
			return
		}

		el := make([]*task, 0, len(s.gated))

		for _, t := range s.gated {
			if t.waitFor == nil || t.waitFor() {
				el = append(el, t)
			}
		}

		if len(el) == 0 {
			// everything is blocked or asleep: let simulated time advance to the next timer.
			tm := time.NewTimer(s.cfg.HangAfter)

			select {
			case <-s.wake:
				tm.Stop()

				continue
			case <-tm.C:
			}

			if s.live == 0 && len(s.gated) == 0 {
				return
			}

			s.Hung = fmt.Sprintf("no progress possible: %d live tasks, %d waiting for a lock; every task is blocked\n%s",
				s.live, len(s.gated), stacks())
			s.releaseAll()

			return
		}

		sort.Slice(el, func(i, j int) bool { return el[i].id < el[j].id })

		i := 0
		if len(el) > 1 {
			i = s.cfg.Chooser.Choose(len(el), "s")
		}

		t := el[i]

		for k, g := range s.gated {
			if g == t {
				// element by element: the race detector sees copy and map operations from inside the runtime
				for ; k+1 < len(s.gated); k++ {
					s.gated[k] = s.gated[k+1]
				}

				s.gated = s.gated[:len(s.gated)-1]

				break
			}
		}

		s.Steps++
		s.Hash = mix(s.Hash, uint64(t.id))

		if s.Steps > s.cfg.MaxSteps {
			s.Hung = "step limit reached"
			s.releaseAll()

			return
		}

		raceOff()
		t.ch <- struct{}{}
		raceOn()
	}
}

// stacks shows where the blocked tasks are.
func stacks() string {
	buf := make([]byte, 1<<18)
	out := ""

	for _, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(g, "synctest") && !strings.Contains(g, "simrt.stacks") {
			out += g + "\n\n"
		}
	}

	return out
}

func (s *Sched) releaseAll() {
	s.free = true

	for _, t := range s.gated {
		t.waitFor = nil
		close(t.ch)
	}

	s.gated = nil
}

// SetSkew gives the calling task's node a clock that is off by d.
func SetSkew(d time.Duration) {
	if s := cur.Load(); s != nil {
		s.me().skew = d
	}
}

var initTime = time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)

// Now replaces time.Now in the instrumented sources.
func Now() time.Time {
	s := cur.Load()
	if s == nil {
		if inBubble.Load() {
			return time.Now()
		}

		return initTime
	}

	if t := s.find(runtimeSimGoid()); t != nil && t.skew != 0 {
		return time.Now().Add(t.skew)
	}

	return time.Now()
}

var inBubble atomic.Bool

// SetInBubble tells Now that a simulated clock is running.
func SetInBubble(b bool) { inBubble.Store(b) }

// Since and Until replace time.Since and time.Until.
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// NumGoroutine is the process's goroutine count.
func NumGoroutine() int { return runtime.NumGoroutine() }

// Hidden runs f with the race detector blind to its synchronisation.
func Hidden(f func()) {
	raceOff()
	f()
	raceOn()
}

// SetPreempt sets the chance of a preemption at an instrumented yield to one in n.
func (s *Sched) SetPreempt(n int) { s.cfg.PreemptOf = n }

// TaskID identifies the calling task within the run.
func TaskID() int {
	if s := cur.Load(); s != nil {
		return s.me().id
	}

	return 0
}

// Package core runs simulated executions: one seed is one execution. Every decision a run takes
// (which task runs next, which fault strikes, which operation a client performs, which byte of a
// message is damaged) is drawn through Run.Choose, which records it; a violation is replayed and
// minimised by replaying a (shrunk) list of those choices. Choice 0 is always the benign one.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"
	"unsafe"

	"vcsim/simrt"
	"vcsim/smathrand"
)

// Property is one checkable property.
type Property struct {
	ID    string
	Title string
	Run   func(r *Run)
	// Race asks for the race-detector build.
	Race bool
	// Real and Stub name the components that ran as real code and as stand-ins.
	Real, Stub []string
	// Rule says what one evaluation is.
	Rule string
	// ReachMeasure says what a distinct non-trivial case is.
	Measure string
	// NeedFaults are fault kinds that must have fired in a run of the whole check.
	NeedFaults []string
}

var registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { registry[p.ID] = p }

// Lookup finds one.
func Lookup(id string) *Property { return registry[id] }

// IDs lists them.
func IDs() []string {
	var ids []string
	for k := range registry {
		ids = append(ids, k)
	}

	sort.Strings(ids)

	return ids
}

// Epoch is when simulated time starts.
var Epoch = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

// Violation is what a run found.
type Violation struct {
	Rule string `json:"rule"`
	Key  string `json:"key"` // identifies the failing call site, input class or history
	Msg  string `json:"msg"`
}

// Run is one simulated execution.
type Run struct {
	T       *testing.T
	Prop    *Property
	Seed    uint64
	Tier    string
	S       *simrt.Sched
	rng     uint64
	replay  []int
	useList bool
	pos     int
	Choices []int
	Viol    *Violation
	Known   []Violation
	Faults  Counter
	Probes  Counter
	Evals   int
	Sigs    Set
	lines   []string
	keep    bool
	hash    uint64
	start   time.Time
	Elapsed time.Duration
	samples []string
	known   func(p *Property, v Violation) bool
	cfg     Params
	tasks   int
	left    int
}

// Params tune one run's scheduler; a property's Run sets them first thing through Configure.
type Params struct{ PreemptOf int }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

// Choose draws a decision in [0,n).
func (r *Run) Choose(n int, label string) int {
	if n <= 1 {
		return 0
	}

	var v int

	if r.useList {
		if r.pos < len(r.replay) {
			v = r.replay[r.pos] % n
		}
	} else {
		v = int(splitmix(&r.rng) % uint64(n))
	}

	r.pos++
	r.Choices = append(r.Choices, v)

	return v
}

// N draws an int in [lo,hi].
func (r *Run) N(lo, hi int, label string) int { return lo + r.Choose(hi-lo+1, label) }

// Chance is true with probability num/den; false is the benign choice.
func (r *Run) Chance(num, den int, label string) bool { return r.Choose(den, label) >= den-num }

// Fault is Chance for an injected fault, and counts it when it fires.
func (r *Run) Fault(kind string, num, den int) bool {
	if !r.Chance(num, den, kind) {
		return false
	}

	r.FaultFired(kind)

	return true
}

// FaultFired counts an injected fault.
func (r *Run) FaultFired(kind string) {
	r.Faults.Add(kind)
	r.Logf("fault %s", kind)
}

// Probe counts that a rare condition was reached.
func (r *Run) Probe(name string) { r.Probes.Add(name) }

// Logf adds a line to the run's trace. Its hash identifies the execution.
func (r *Run) Logf(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	r.hash = hashString(r.hash, s)

	if r.keep && len(r.lines) < 4000 {
		r.lines = append(r.lines, fmt.Sprintf("[t=%s] %s", time.Since(r.start), s))
	}
}

func hashString(h uint64, s string) uint64 {
	h ^= 14695981039346656037

	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}

	return h
}

// Eval counts one evaluation of the property and remembers the case by its signature.
func (r *Run) Eval(sig string, a ...any) {
	r.Evals++

	s := fmt.Sprintf(sig, a...)
	if r.Sigs.Add(hashString(0, s)) && len(r.samples) < 4 {
		r.samples = append(r.samples, s)
	}
}

// Counter counts by name. It is not a map, because tasks share it and the race detector would see
// a map's accesses from inside the runtime.
type Counter struct {
	Names []string
	N     []int
}

// Add counts one.
func (c *Counter) Add(name string) {
	for i, n := range c.Names {
		if n == name {
			c.N[i]++
			return
		}
	}

	c.Names = append(c.Names, name)
	c.N = append(c.N, 1)
}

// Get is the count of name.
func (c *Counter) Get(name string) int {
	for i, n := range c.Names {
		if n == name {
			return c.N[i]
		}
	}

	return 0
}

// Set is a set of hashes, not a map for the same reason.
type Set struct {
	tab []uint64
	n   int
}

// Add reports whether h was new.
func (s *Set) Add(h uint64) bool {
	if h == 0 {
		h = 1
	}

	if 2*s.n >= len(s.tab) {
		old := s.tab
		s.tab = make([]uint64, 2*len(old)+64)
		s.n = 0

		for _, o := range old {
			if o != 0 {
				s.Add(o)
			}
		}
	}

	for i := h % uint64(len(s.tab)); ; i = (i + 1) % uint64(len(s.tab)) {
		switch s.tab[i] {
		case h:
			return false
		case 0:
			s.tab[i] = h
			s.n++

			return true
		}
	}
}

// All lists the members.
func (s *Set) All() []uint64 {
	var o []uint64

	for _, v := range s.tab {
		if v != 0 {
			o = append(o, v)
		}
	}

	return o
}

// Violate records that the property does not hold. The first one counts, unless it is a known finding.
func (r *Run) Violate(rule, key, format string, a ...any) {
	v := Violation{Rule: rule, Key: key, Msg: fmt.Sprintf(format, a...)}
	if len(v.Msg) > 3000 {
		v.Msg = v.Msg[:3000] + "..."
	}

	if r.known != nil && r.known(r.Prop, v) {
		r.Known = append(r.Known, v)
		r.Logf("known finding %s/%s", rule, key)

		return
	}

	if r.Viol == nil {
		r.Viol = &v
	}

	// the message may hold addresses; the trace's hash must not
	r.Logf("VIOLATION %s/%s", rule, key)

	if r.keep {
		r.lines = append(r.lines, v.Msg)
	}
}

// Failed reports whether a violation was recorded.
func (r *Run) Failed() bool { return r.Viol != nil }

// Go starts a task of the simulated system.
func (r *Run) Go(name string, f func()) {
	r.tasks++
	r.S.Go(name, f)
}

// Parallel runs fs as concurrent tasks and waits for all of them.
func (r *Run) Parallel(name string, fs ...func()) {
	j := &join{left: len(fs)}

	for i, f := range fs {
		r.Go(fmt.Sprintf("%s-%d", name, i), func() {
			defer func() {
				simrt.RaceReleaseMerge(unsafe.Pointer(&j.sem))
				j.left--
			}()
			f()
		})
	}

	simrt.Block(func() bool { return j.left == 0 })
	simrt.RaceAcquire(unsafe.Pointer(&j.sem))
}

type join struct {
	left int
	sem  int32
}

// Sleep lets simulated time pass.
func (r *Run) Sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}

	simrt.Step()
}

// Do calls f and returns the panic it died of, if any.
func Do(f func()) (pan string) {
	defer func() {
		if p := recover(); p != nil {
			pan = fmt.Sprintf("%v\n%s", p, trimStack(string(debug.Stack())))
		}
	}()

	f()

	return ""
}

// DoGoexit is Do for an f that may end its goroutine (as a failed test does).
func DoGoexit(f func()) (pan string) {
	done := make(chan struct{})

	go func() {
		defer close(done)

		pan = Do(f)
	}()

	<-done

	return pan
}

var raceLogPos int64

// raceReport reads what the race detector wrote since the last time, and names the pair of functions
// of the code under test that raced.
func raceReport() (key, text string) {
	key = "race"

	for _, o := range strings.Fields(os.Getenv("GORACE")) {
		p, ok := strings.CutPrefix(o, "log_path=")
		if !ok {
			continue
		}

		b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
		if err != nil || int64(len(b)) <= raceLogPos {
			continue
		}

		text = string(b[raceLogPos:])
		raceLogPos = int64(len(b))
	}

	var sites []string

	first := text
	if i := strings.Index(first[min(len(first), 20):], "WARNING: DATA RACE"); i > 40 {
		if j := strings.Index(first[60:], "WARNING: DATA RACE"); j > 0 {
			first = first[:60+j]
		}
	}

	for _, blk := range strings.Split(first, "\n\n") {
		if strings.HasPrefix(strings.TrimLeft(blk, " "), "Goroutine") {
			continue
		}

		if s := panicSite(blk); s != "?" {
			sites = append(sites, s)
		}
	}

	sort.Strings(sites)

	if len(sites) > 0 {
		key = strings.Join(sites, "|")
	}

	return key, text
}

func trimStack(s string) string {
	var keep []string

	ls := strings.Split(s, "\n")

	// the function that panicked, when a dependency's
	for i, after := 0, false; i+1 < len(ls); i++ {
		if strings.HasPrefix(ls[i], "panic(") {
			after = true
			i++

			continue
		}

		if !after || strings.HasPrefix(ls[i], "\t") || strings.HasPrefix(ls[i], "runtime.") {
			continue
		}

		if !strings.Contains(ls[i], "trustbloc/vc-go") && !strings.HasPrefix(ls[i], "vcsim/") {
			keep = append(keep, "in "+ls[i]+" "+strings.TrimSpace(ls[i+1]))
		}

		break
	}

	for i := 0; i+1 < len(ls); i++ {
		if strings.Contains(ls[i], "trustbloc/vc-go") && strings.HasPrefix(ls[i+1], "\t") {
			keep = append(keep, ls[i]+" "+strings.TrimSpace(ls[i+1]))
		}

		if len(keep) > 8 {
			break
		}
	}

	if len(keep) == 0 && len(s) > 1500 {
		return s[:1500]
	}

	return strings.Join(keep, "\n")
}

// Result is one run's outcome.
type Result struct {
	Seed    uint64
	Hash    uint64
	Viol    *Violation
	Choices []int
	Lines   []string
	Run     *Run
}

// Configure sets the scheduler's preemption rate: 1 in n yields (0: only blocking points).
func (r *Run) Configure(p Params) {
	r.cfg = p
	r.S.SetPreempt(p.PreemptOf)

	time.Local = zones[r.Choose(len(zones), "time zone of the machine")]
}

// The zones a simulated machine is set to; what a document means does not depend on it.
var zones = []*time.Location{
	time.UTC, time.UTC, time.FixedZone("", 5*3600+45*60), time.FixedZone("", -11*3600), time.FixedZone("", 14*3600),
}

// Reorder changes the order in which maps are iterated from here on: within a run it is otherwise the same every time.
func (r *Run) Reorder() {
	simrt.SeedRuntime((r.Seed|1)*0x9e3779b97f4a7c15 + 2*uint64(r.Choose(1<<16, "map-order")) | 1)
}

// Execute performs one simulated run.
func Execute(t *testing.T, p *Property, tier string, seed uint64, list []int, useList, keep bool,
	known func(p *Property, v Violation) bool) *Result {
	r := &Run{
		T: t, Prop: p, Seed: seed, Tier: tier, rng: seed*0x2545F4914F6CDD1D + 1, replay: list, useList: useList, keep: keep,
		known: known,
	}

	time.Local = time.UTC

	cryptotest.SetGlobalRandom(t, seed)
	smathrand.Reset(int64(seed))
	simrt.SeedRuntime(seed | 1)

	races := simrt.RaceErrors()
	simrt.SetInBubble(true)
	r.S = simrt.New(simrt.Config{Chooser: r})

	pan := DoGoexit(func() {
		synctest.Test(t, func(t *testing.T) {
			time.Sleep(time.Until(Epoch))
			r.start = time.Now()
			r.S = simrt.New(simrt.Config{Chooser: r, HangAfter: 24 * 365 * time.Hour})
			r.S.Install()
			r.S.Go("main", func() { p.Run(r) })
			r.S.Run(synctest.Wait)
			r.Elapsed = time.Since(r.start)
			r.S.Uninstall()
		})
	})

	r.S.Uninstall()
	simrt.SetInBubble(false)

	for _, ps := range r.S.Panics {
		r.Violate("panic", panicSite(ps), "the code panicked: %s", clip(ps))
	}

	switch {
	case r.S.Hung != "":
		r.Violate("hang", "hang", "%s", r.S.Hung)
	case strings.Contains(pan, "deadlock: main bubble goroutine has exited but blocked goroutines remain"):
		r.Violate("goroutine-leak", "leak", "goroutines started during the run are blocked for ever after it: %s", clip(pan))
	case pan != "":
		r.Violate("panic", panicSite(pan), "simulation ended by: %s", clip(pan))
	}

	if n := simrt.RaceErrors(); n != races {
		key, text := raceReport()
		r.Violate("data-race", key, "the race detector reported %d data race(s) on this schedule\n%s", n-races, text)
	}

	h := r.hash
	h = h*31 + r.S.Hash

	return &Result{Seed: seed, Hash: h, Viol: r.Viol, Choices: r.Choices, Lines: r.lines, Run: r}
}

func clip(s string) string {
	if len(s) > 2500 {
		return s[:2500]
	}

	return s
}

// PanicSite names the vc-go function a panic came from.
func PanicSite(s string) string { return panicSite(s) }

func panicSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "in ") && strings.Contains(l, "(") {
			return l[:strings.LastIndex(l[:strings.LastIndex(l, ")")], "(")]
		}

		if i := strings.Index(l, "trustbloc/vc-go/"); i >= 0 {
			l = l[i+len("trustbloc/vc-go/"):]
			if j := strings.Index(l, "("); j > 0 {
				if strings.HasPrefix(l[j:], "(*") {
					if k := strings.Index(l[j+1:], "("); k > 0 {
						l = l[:j+1+k]
					}
				} else {
					l = l[:j]
				}
			}

			return l
		}
	}

	return "?"
}

// Shrink minimises a failing choice list, keeping the violated rule and key.
func Shrink(t *testing.T, p *Property, tier string, res *Result, budget time.Duration, known func(p *Property, v Violation) bool) *Result {
	best := res
	end := time.Now().Add(budget)
	try := func(c []int) bool {
		if time.Now().After(end) {
			return false
		}

		n := Execute(t, p, tier, res.Seed, c, true, false, known)
		if n.Viol != nil && n.Viol.Rule == res.Viol.Rule && n.Viol.Key == res.Viol.Key {
			n.Choices = trimZeros(n.Choices)
			if less(n.Choices, best.Choices) {
				best = n

				return true
			}
		}

		return false
	}

	if !try(best.Choices) {
		// does not replay from its own list: report as is
		n := Execute(t, p, tier, res.Seed, best.Choices, true, false, known)
		if n.Viol == nil {
			return best
		}

		best.Choices = trimZeros(best.Choices)
	}

	for improved := true; improved && time.Now().Before(end); {
		improved = false

		for sz := len(best.Choices) / 2; sz >= 1 && time.Now().Before(end); sz /= 2 {
			for i := 0; i+sz <= len(best.Choices); {
				c := append(append([]int{}, best.Choices[:i]...), best.Choices[i+sz:]...)
				if try(c) {
					improved = true
					continue
				}

				z := append([]int{}, best.Choices...)
				any := false

				for k := i; k < i+sz; k++ {
					if z[k] != 0 {
						z[k] = 0
						any = true
					}
				}

				if any && try(z) {
					improved = true
				}

				i += sz

				if time.Now().After(end) {
					break
				}
			}
		}

		for i := 0; i < len(best.Choices) && time.Now().Before(end); i++ {
			for best.Choices[i] > 1 {
				z := append([]int{}, best.Choices...)
				z[i] /= 2

				if !try(z) {
					break
				}

				improved = true

				if i >= len(best.Choices) {
					break
				}
			}
		}
	}

	fin := Execute(t, p, tier, res.Seed, best.Choices, true, true, known)
	fin.Choices = trimZeros(fin.Choices)

	return fin
}

func trimZeros(c []int) []int {
	for len(c) > 0 && c[len(c)-1] == 0 {
		c = c[:len(c)-1]
	}

	return c
}

func less(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}

	sa, sb := 0, 0
	for i := range a {
		if a[i] != 0 {
			sa++
		}

		if b[i] != 0 {
			sb++
		}
	}

	if sa != sb {
		return sa < sb
	}

	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}

	return false
}

// ReplayFile is what a violation is reproduced from.
type ReplayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Race     bool     `json:"race_build"`
	Rule     string   `json:"rule"`
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Hash     string   `json:"trace_hash"`
	Choices  []int    `json:"choices"`
	Original int      `json:"choices_before_minimising"`
	Trace    []string `json:"trace"`
}

// WriteJSON writes v to p.
func WriteJSON(p string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
}

func init() { runtime.GOMAXPROCS(1) }

// SampleStrings are a few of the evaluated cases.
func (r *Run) SampleStrings() []string { return r.samples }

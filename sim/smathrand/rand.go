// Package smathrand stands in for math/rand in the instrumented copy of vc-go: every source that
// code creates is re-seeded at the start of a simulated run, so that a run does not depend on the
// runs before it. The generators themselves are the real ones.
package smathrand

import (
	"math/rand"
	"sync"

	"vcsim/simrt"
)

type (
	Rand     = rand.Rand
	Source   = rand.Source
	Source64 = rand.Source64
	Zipf     = rand.Zipf
)

var (
	mu      sync.Mutex
	sources []rand.Source
)

func NewSource(seed int64) Source {
	s := rand.NewSource(seed)

	// one created during a run is seeded by that run (from its simulated clock, say)
	if !simrt.Active() {
		mu.Lock()
		sources = append(sources, s)
		mu.Unlock()
	}

	return s
}

// Reset re-seeds every source created so far that outlives a run.
func Reset(seed int64) {
	mu.Lock()
	defer mu.Unlock()

	for i, s := range sources {
		s.Seed(seed + int64(i)*7919)
	}
}

func New(s Source) *Rand                            { return rand.New(s) }
func Int() int                                      { return global().Int() }
func Intn(n int) int                                { return global().Intn(n) }
func Int31() int32                                  { return global().Int31() }
func Int31n(n int32) int32                          { return global().Int31n(n) }
func Int63() int64                                  { return global().Int63() }
func Int63n(n int64) int64                          { return global().Int63n(n) }
func Uint32() uint32                                { return global().Uint32() }
func Uint64() uint64                                { return global().Uint64() }
func Float64() float64                              { return global().Float64() }
func Float32() float32                              { return global().Float32() }
func NormFloat64() float64                          { return global().NormFloat64() }
func ExpFloat64() float64                           { return global().ExpFloat64() }
func Perm(n int) []int                              { return global().Perm(n) }
func Shuffle(n int, swap func(i, j int))            { global().Shuffle(n, swap) }
func Read(p []byte) (int, error)                    { return global().Read(p) } //nolint:staticcheck
func Seed(seed int64)                               {}
func NewZipf(r *Rand, s, v float64, m uint64) *Zipf { return rand.NewZipf(r, s, v, m) }

// stream is the source of the package-level functions: the run's own, which nothing else draws from.
type stream struct{}

func (stream) Uint64() uint64 { return simrt.Rand64() }
func (stream) Int63() int64   { return int64(simrt.Rand64() >> 1) }
func (stream) Seed(int64)     {}

func global() *rand.Rand { return rand.New(stream{}) }

package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"vcsim/core"
	_ "vcsim/props"
)

var (
	fProp   = flag.String("sim.prop", "", "property id")
	fTier   = flag.String("sim.tier", "quick", "tier")
	fStart  = flag.Uint64("sim.start", 1, "first seed")
	fStride = flag.Int64("sim.stride", 1, "seed stride")
	fCount  = flag.Int("sim.count", 0, "max runs (0: until the deadline)")
	fSecs   = flag.Float64("sim.secs", 10, "wall-clock budget")
	fReplay = flag.String("sim.replay", "", "replay file")
	fOut    = flag.String("sim.out", "", "result file")
	fRepDir = flag.String("sim.repdir", "", "where replay files go")
	fKnown  = flag.String("sim.known", "", "known findings file")
	fHashes = flag.Bool("sim.hashes", false, "record every run's trace hash")
	fSeed   = flag.Uint64("sim.show", 0, "run one seed and print its trace")
	fList   = flag.Bool("sim.list", false, "list properties")
)

// Out is what one worker reports.
type Out struct {
	Property    string            `json:"property"`
	Runs        int               `json:"runs"`
	Evals       int               `json:"evals"`
	Distinct    []string          `json:"distinct"`
	Samples     []string          `json:"samples"`
	Schedules   []string          `json:"schedules"`
	Faults      map[string]int    `json:"faults"`
	Probes      map[string]int    `json:"probes"`
	Known       map[string]int    `json:"known"`
	SimSeconds  float64           `json:"sim_seconds"`
	WallSeconds float64           `json:"wall_seconds"`
	Steps       int               `json:"steps"`
	Preempts    int               `json:"preempts"`
	Yields      int               `json:"yields"`
	Violation   *core.ReplayFile  `json:"violation,omitempty"`
	Hashes      map[string]string `json:"hashes,omitempty"`
	Info        map[string]any    `json:"info"`
	LastSeed    uint64            `json:"last_seed"`
}

type knownEntry struct {
	Kind     string `json:"kind"`
	Property string `json:"property"`
	Rule     string `json:"rule"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown() func(p *core.Property, v core.Violation) bool {
	var es []knownEntry

	if *fKnown != "" {
		b, err := os.ReadFile(*fKnown)
		if err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				var e knownEntry
				if strings.HasPrefix(l, "{") && json.Unmarshal([]byte(l), &e) == nil && e.Kind == "known" {
					es = append(es, e)
				}
			}
		}
	}

	return func(p *core.Property, v core.Violation) bool {
		for _, e := range es {
			if e.Property == p.ID && e.Rule == v.Rule && e.Key == v.Key {
				return true
			}
		}

		return false
	}
}

func TestSim(t *testing.T) {
	if *fList {
		for _, id := range core.IDs() {
			p := core.Lookup(id)
			fmt.Printf("%s race=%v %s\n", id, p.Race, p.Title)
		}

		return
	}

	known := loadKnown()

	if *fReplay != "" {
		var rf core.ReplayFile

		b, err := os.ReadFile(*fReplay)
		if err != nil {
			t.Fatal(err)
		}

		if err = json.Unmarshal(b, &rf); err != nil {
			t.Fatal(err)
		}

		p := core.Lookup(rf.Property)
		res := core.Execute(t, p, rf.Tier, rf.Seed, rf.Choices, true, true, known)

		for _, l := range res.Lines {
			fmt.Println(l)
		}

		fmt.Printf("REPLAY hash=%016x recorded=%s\n", res.Hash, rf.Hash)

		if res.Viol != nil {
			fmt.Printf("REPLAY-VIOLATION property=%s rule=%s key=%s %s\n", p.ID, res.Viol.Rule, res.Viol.Key, res.Viol.Msg)
		} else {
			fmt.Println("REPLAY-OK no violation")
		}

		return
	}

	p := core.Lookup(*fProp)
	if p == nil {
		t.Fatalf("unknown property %q", *fProp)
	}

	if *fSeed != 0 {
		res := core.Execute(t, p, *fTier, *fSeed, nil, false, true, known)
		for _, l := range res.Lines {
			fmt.Println(l)
		}

		fmt.Printf("hash=%016x viol=%+v evals=%d faults=%v\n", res.Hash, res.Viol, res.Run.Evals, res.Run.Faults)

		return
	}

	out := &Out{
		Property: p.ID, Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, Hashes: map[string]string{},
		Info: map[string]any{"real": p.Real, "stub": p.Stub, "rule": p.Rule, "measure": p.Measure, "race": p.Race, "need": p.NeedFaults, "title": p.Title},
	}
	distinct := map[uint64]bool{}
	scheds := map[uint64]bool{}
	begin := time.Now()
	dead := begin.Add(time.Duration(*fSecs * float64(time.Second)))

	progress := *fOut + ".seed"

	for i := 0; (*fCount == 0 || i < *fCount) && (time.Now().Before(dead) || i == 0); i++ {
		seed := uint64(int64(*fStart) + int64(i)**fStride)
		out.LastSeed = seed

		if *fOut != "" {
			_ = os.WriteFile(progress, []byte(fmt.Sprint(seed)), 0o644)
		}

		res := core.Execute(t, p, *fTier, seed, nil, false, false, known)
		r := res.Run
		out.Runs++
		out.Evals += r.Evals
		out.Steps += r.S.Steps
		out.Preempts += r.S.Preempt
		out.Yields += r.S.Yields
		out.SimSeconds += r.Elapsed.Seconds()

		for i, k := range r.Faults.Names {
			out.Faults[k] += r.Faults.N[i]
		}

		for i, k := range r.Probes.Names {
			out.Probes[k] += r.Probes.N[i]
		}

		for _, v := range r.Known {
			out.Known[v.Rule+"/"+v.Key]++
		}

		for _, k := range r.Sigs.All() {
			distinct[k] = true
		}

		scheds[r.S.Hash] = true

		if len(out.Samples) < 8 {
			out.Samples = append(out.Samples, r.SampleStrings()...)
		}

		if *fHashes {
			out.Hashes[fmt.Sprint(seed)] = fmt.Sprintf("%016x", res.Hash)
		}

		if res.Viol != nil {
			n := len(res.Choices)
			budget := 60 * time.Second

			if res.Viol.Rule == "data-race" {
				budget = 20 * time.Second
			}

			min := core.Shrink(t, p, *fTier, res, budget, known)
			if min.Viol == nil {
				min = res
			}

			out.Violation = &core.ReplayFile{
				Property: p.ID, Tier: *fTier, Seed: res.Seed, Race: p.Race, Rule: min.Viol.Rule, Key: min.Viol.Key, Msg: min.Viol.Msg,
				Hash: fmt.Sprintf("%016x", min.Hash), Choices: min.Choices, Original: n, Trace: min.Lines,
			}

			break
		}
	}

	out.WallSeconds = time.Since(begin).Seconds()

	for k := range distinct {
		out.Distinct = append(out.Distinct, fmt.Sprintf("%016x", k))
	}

	for k := range scheds {
		out.Schedules = append(out.Schedules, fmt.Sprintf("%016x", k))
	}

	if *fOut != "" {
		core.WriteJSON(*fOut, out)
	} else {
		out.Distinct, out.Schedules = nil, nil
		b, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(b))
	}
}

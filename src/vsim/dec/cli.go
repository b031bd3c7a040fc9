package dec

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	"vsim/rt"
)

// Replay is a violation with everything needed to reproduce it.
type Replay struct {
	Property string      `json:"property"`
	Kind     string      `json:"kind"`
	Msg      string      `json:"msg"`
	All      []Violation `json:"all"`
	Seed     int64       `json:"run_seed"`
	Original int         `json:"original_events"`
	Minimal  int         `json:"minimal_events"`
	Scenario *Scenario   `json:"scenario"`
	Choices  []rt.Choice `json:"choices"`
	Hash     uint64      `json:"hash"`
	Log      []string    `json:"log"`
}

// Stats of a worker.
type Stats struct {
	Runs       int            `json:"runs"`
	Antecedent int            `json:"antecedent_runs"`
	Overlap    int            `json:"overlap_runs"`
	Steps      int64          `json:"steps"`
	Switches   int64          `json:"switches"`
	SimNS      int64          `json:"sim_ns"`
	Fired      map[string]int `json:"fired"`
	Units      map[string]int `json:"units"`
	Strategies map[string]int `json:"strategies"`
	Calls      int64          `json:"calls"`
	Wrapped    int64          `json:"wrapped_calls"`
	Panics     int            `json:"panicking_calls"`
	Checked    int            `json:"determinism_checks"`
	Mismatch   int            `json:"determinism_mismatches"`
	MisNote    string         `json:"mismatch_note,omitempty"`
	Samples    []*Scenario    `json:"samples"`
	WallS      float64        `json:"wall_s"`
	Violation  string         `json:"violation,omitempty"` // replay file
	Kind       string         `json:"kind,omitempty"`
	Msg        string         `json:"msg,omitempty"`
}

func seedOf(parts ...any) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() & (1<<62 - 1))
}

// ScenarioFor is the k-th scenario of a property.
func ScenarioFor(id string, seed int64, k int, units []string) *Scenario {
	r := rand.New(rand.NewSource(seedOf(id, "/", seed, "/", k)))
	u := Units[units[k%len(units)]]
	return Props[id].Gen(r, u)
}

func run(sc *Scenario, replay bool, ch []rt.Choice, log bool) *World {
	w := Simulate(sc, replay, ch, log)
	w.Evaluate()
	return w
}

// Main is the command line of a simulation binary.
func Main(units func(prop string) []string) {
	id := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	worker := flag.Int("worker", 0, "")
	workers := flag.Int("workers", 1, "")
	runs := flag.Int("runs", 1000, "")
	secs := flag.Float64("secs", 20, "")
	outDir := flag.String("out", "", "")
	replay := flag.String("replay", "", "")
	only := flag.Int("only", -1, "run only this index, with log")
	dump := flag.String("dump", "", "with only: write the scenario there before it runs")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	rt.Watch(45)
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	names := units(*id)
	if len(names) == 0 {
		fmt.Fprintln(os.Stderr, "no units")
		os.Exit(2)
	}
	if *only >= 0 {
		sc := ScenarioFor(*id, *seed, *only, names)
		if *dump != "" {
			b, _ := json.MarshalIndent(&Replay{Property: *id, Seed: *seed, Scenario: sc}, "", " ")
			if err := os.WriteFile(*dump, b, 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
		w := run(sc, false, nil, true)
		for _, l := range w.Res.Log {
			fmt.Println(l)
		}
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		for _, v := range w.Viol {
			fmt.Println(v.Kind, v.Msg)
		}
		return
	}
	st := &Stats{Fired: map[string]int{}, Units: map[string]int{}, Strategies: map[string]int{}}
	t0 := time.Now()
	hf, err := os.Create(filepath.Join(*outDir, fmt.Sprintf("hashes-%d.bin", *worker)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	hw := bufio.NewWriter(hf)
	at, err := os.Create(filepath.Join(*outDir, fmt.Sprintf("at-%d", *worker)))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for j := 0; j < *runs; j++ {
		if j%16 == 0 && time.Since(t0).Seconds() > *secs {
			break
		}
		k := *worker + j**workers
		at.WriteAt(fmt.Appendf(nil, "%-12d", k), 0)
		sc := ScenarioFor(*id, *seed, k, names)
		w := run(sc, false, nil, false)
		st.Runs++
		st.Steps += int64(w.Res.Steps)
		st.Switches += int64(w.Res.Switches)
		st.SimNS += w.Res.SimTime
		for f, n := range w.Fired {
			st.Fired[f] += n
		}
		st.Units[sc.Unit]++
		st.Strategies[sc.Strategy.Kind]++
		st.Calls += int64(len(w.Calls))
		st.Wrapped += int64(len(w.Bases))
		for _, c := range w.Calls {
			if c.Panicked {
				st.Panics++
			}
		}
		if overlap(w) {
			st.Overlap++
		}
		if w.Antec > 0 {
			st.Antecedent++
			h := fnv.New64a()
			fmt.Fprint(h, sc.Unit, w.Res.SchedHash)
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], h.Sum64())
			hw.Write(b[:])
			if len(st.Samples) < 2 && j%7 == 3 {
				st.Samples = append(st.Samples, sc)
			}
		}
		if len(w.Viol) > 0 {
			file := filepath.Join(*outDir, fmt.Sprintf("violation-%d.json", *worker))
			save := func(rp *Replay) {
				rp.Property = *id
				rp.Seed = *seed
				b, _ := json.MarshalIndent(rp, "", " ")
				if err := os.WriteFile(file, b, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(2)
				}
			}
			// kept in case that one of the further runs has no end
			save(&Replay{Kind: w.Viol[0].Kind, Msg: w.Viol[0].Msg, Scenario: sc, Choices: w.Res.Choices, Hash: w.Res.Hash})
			rp := minimise(sc, w, 15*time.Second)
			save(rp)
			st.Violation, st.Kind, st.Msg = file, rp.Kind, rp.Msg
			break
		}
		if j%64 == 5 {
			st.Checked++
			a := run(sc.Clone(), false, nil, false)
			b := run(sc.Clone(), true, w.Res.Choices, false)
			if a.Res.Hash != w.Res.Hash || b.Res.Hash != w.Res.Hash {
				st.Mismatch++
				st.MisNote = fmt.Sprintf("run %d of %s (seed again: %v, replay: %v)", k, sc.Unit, a.Res.Hash == w.Res.Hash, b.Res.Hash == w.Res.Hash)
			}
		}
	}
	hw.Flush()
	hf.Close()
	st.WallS = time.Since(t0).Seconds()
	b, _ := json.Marshal(st)
	if err := os.WriteFile(filepath.Join(*outDir, fmt.Sprintf("stats-%d.json", *worker)), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if Units[rp.Scenario.Unit] == nil {
		fmt.Fprintln(os.Stderr, "unknown unit", rp.Scenario.Unit)
		return 2
	}
	// a run that has no end is repeated from its seed
	w := run(rp.Scenario, rp.Kind != "endless", rp.Choices, true)
	for _, l := range w.Res.Log {
		fmt.Println("  " + l)
	}
	for _, v := range w.Viol {
		fmt.Printf("violated: %s: %s\n", v.Kind, v.Msg)
	}
	for _, v := range w.Viol {
		if v.Kind == rp.Kind {
			if w.Res.Hash == rp.Hash {
				fmt.Println("REPRODUCED exactly")
			} else {
				fmt.Println("REPRODUCED with a different event log")
			}
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func has(w *World, kind string) bool {
	for _, v := range w.Viol {
		if v.Kind == kind {
			return true
		}
	}
	return false
}

func minimise(sc *Scenario, w *World, budget time.Duration) *Replay {
	kind := w.Viol[0].Kind
	deadline := time.Now().Add(budget)
	cur := sc.Clone()
	ch := w.Res.Choices
	rp := &Replay{Kind: kind, Original: len(sc.Ops()) + len(sc.Faults) + len(ch)}
	left := func() bool { return time.Now().Before(deadline) }
	try := func(c *Scenario) bool {
		if !left() {
			return false
		}
		if x := run(c.Clone(), true, ch, false); has(x, kind) {
			cur, ch = c, x.Res.Choices
			return true
		}
		for i := 0; i < 25 && left(); i++ {
			d := c.Clone()
			d.Seed = seedOf("min", c.Seed, i)
			if x := run(d.Clone(), false, nil, false); has(x, kind) {
				cur, ch = d, x.Res.Choices
				return true
			}
		}
		return false
	}
	if x := run(cur.Clone(), true, ch, false); !has(x, kind) {
		rp.Msg = "NOT REPLAYABLE: " + w.Viol[0].Msg
		rp.Scenario, rp.Choices, rp.Hash = sc, ch, w.Res.Hash
		return rp
	}
	for changed := true; changed && left(); {
		changed = false
		for i := len(cur.Clients) - 1; i >= 0; i-- {
			c := cur.Clone()
			c.Clients = append(c.Clients[:i], c.Clients[i+1:]...)
			if len(cur.Clients) > 1 && try(c) {
				changed = true
			}
		}
		for i := range cur.Clients {
			for j := len(cur.Clients[i].Ops) - 1; j >= 0; j-- {
				if len(cur.Clients[i].Ops) <= 1 {
					break
				}
				c := cur.Clone()
				c.Clients[i].Ops = append(c.Clients[i].Ops[:j], c.Clients[i].Ops[j+1:]...)
				if try(c) {
					changed = true
				}
			}
		}
		for i := range cur.Clients {
			for {
				c := cur.Clone()
				if x := &c.Clients[i]; x.Repeat > 0 {
					x.Repeat /= 2
				} else {
					break
				}
				if !try(c) {
					break
				}
				changed = true
			}
			for j := range cur.Clients[i].Ops {
				for {
					c := cur.Clone()
					if o := c.Clients[i].Ops[j]; o.Times > 0 {
						o.Times /= 2
					} else {
						break
					}
					if !try(c) {
						break
					}
					changed = true
				}
			}
		}
		for i := len(cur.Faults) - 1; i >= 0; i-- {
			c := cur.Clone()
			c.Faults = append(c.Faults[:i], c.Faults[i+1:]...)
			if try(c) {
				changed = true
			}
		}
		if cur.Strategy.StallP > 0 {
			c := cur.Clone()
			c.Strategy.StallP = 0
			if try(c) {
				changed = true
			}
		}
		n := len(cur.Ops())
		for i := 0; i < n && left(); i++ {
			edits := []func(o *Op) bool{
				func(o *Op) bool { r := o.Delay > 0; o.Delay = 0; return r },
				func(o *Op) bool { r := len(o.Nil) > 0; o.Nil = nil; return r },
				func(o *Op) bool { r := len(o.Invalid) > 1; o.Invalid = o.Invalid[:min1(len(o.Invalid), 1)]; return r },
				func(o *Op) bool { r := o.Ctx != CtxSpec{}; o.Ctx = CtxSpec{}; return r },
				func(o *Op) bool {
					if len(o.Plans) > 1 {
						o.Plans = o.Plans[:len(o.Plans)-1]
						return true
					}
					return false
				},
			}
			for k := 0; k < 6; k++ {
				k := k
				on := func(f func(p *Plan) bool) func(o *Op) bool {
					return func(o *Op) bool { return k < len(o.Plans) && f(&o.Plans[k]) }
				}
				edits = append(edits,
					on(func(p *Plan) bool { r := *p != Plan{}; *p = Plan{}; return r }),
					on(func(p *Plan) bool { r := p.Lat > 0; p.Lat = 0; return r }),
					on(func(p *Plan) bool { r := p.Yields > 0; p.Yields = 0; return r }),
					on(func(p *Plan) bool { r := p.Honor; p.Honor = false; return r }),
					on(func(p *Plan) bool { r := p.Nested != nil; p.Nested = nil; return r }),
					on(func(p *Plan) bool { r := p.Jump != 0; p.Jump = 0; return r }),
					on(func(p *Plan) bool { r := p.Panic != ""; p.Panic = ""; return r }),
					on(func(p *Plan) bool { r := p.Cancel; p.Cancel = false; return r }),
					on(func(p *Plan) bool { r := p.Err != "" && p.Err != "e"; p.Err = "e"; return r }),
				)
			}
			for _, e := range edits {
				ops := cur.Ops()
				if i >= len(ops) {
					break
				}
				c := cur.Clone()
				if e(c.Ops()[i]) && try(c) {
					changed = true
				}
			}
		}
	}
	// fewer scheduling decisions
	for size := (len(ch) + 1) / 2; size >= 1 && left(); {
		ok := false
		for i := 0; i < len(ch) && left(); {
			j := i + size
			if j > len(ch) {
				j = len(ch)
			}
			cand := append(append([]rt.Choice(nil), ch[:i]...), ch[j:]...)
			if x := run(cur.Clone(), true, cand, false); has(x, kind) && len(x.Res.Choices) < len(ch) {
				ch = x.Res.Choices
				ok = true
				continue
			}
			i = j
		}
		if size == 1 && !ok {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	x := run(cur.Clone(), true, ch, true)
	rp.Scenario, rp.Choices, rp.Hash, rp.Log, rp.All = cur, ch, x.Res.Hash, x.Res.Log, x.Viol
	for _, v := range x.Viol {
		if v.Kind == kind {
			rp.Msg = v.Msg
			break
		}
	}
	rp.Minimal = len(cur.Ops()) + len(cur.Faults) + len(ch)
	return rp
}

func min1(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Filter selects the registered units of the given templates.
func Filter(templates ...string) []string {
	var l []string
	for _, n := range UnitNames {
		for _, t := range templates {
			if Units[n].Template == t || strings.HasPrefix(t, "*") {
				l = append(l, n)
				break
			}
		}
	}
	return l
}

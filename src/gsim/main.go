// Command sim simulates the gowrap tool in a world of files, hosted templates and faults.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"gsim/vshare"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"time"

	"vsim/rt"
)

var siteNames []string

// Replay is a violation with everything needed to reproduce it.
type Replay struct {
	Property string      `json:"property"`
	Kind     string      `json:"kind"`
	Msg      string      `json:"msg"`
	All      []Violation `json:"all"`
	Seed     int64       `json:"run_seed"`
	Original int         `json:"original_events"`
	Minimal  int         `json:"minimal_events"`
	Scenario *Scenario   `json:"scenario"`
	Choices  []rt.Choice `json:"choices"`
	Hash     uint64      `json:"hash"`
	Log      []string    `json:"log"`
}

// Stats of a worker; the names are those of the decorator simulations.
type Stats struct {
	Runs       int            `json:"runs"`
	Antecedent int            `json:"antecedent_runs"`
	Overlap    int            `json:"overlap_runs"`
	Steps      int64          `json:"steps"`
	Switches   int64          `json:"switches"`
	SimNS      int64          `json:"sim_ns"`
	Fired      map[string]int `json:"fired"`
	Units      map[string]int `json:"units"`
	Strategies map[string]int `json:"strategies"`
	Calls      int64          `json:"calls"`
	Wrapped    int64          `json:"wrapped_calls"`
	Checked    int            `json:"determinism_checks"`
	Mismatch   int            `json:"determinism_mismatches"`
	MisNote    string         `json:"mismatch_note,omitempty"`
	Samples    []*Scenario    `json:"samples"`
	WallS      float64        `json:"wall_s"`
	Violation  string         `json:"violation,omitempty"`
	Kind       string         `json:"kind,omitempty"`
	Msg        string         `json:"msg,omitempty"`
}

func seedOf(parts ...any) int64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return int64(h.Sum64() & (1<<62 - 1))
}

func scenarioFor(id string, seed int64, k int) *Scenario {
	r := rand.New(rand.NewSource(seedOf(id, "/", seed, "/", k)))
	sc := props[id].gen(r, k)
	sc.Prop = id
	if sc.Seed == 0 {
		sc.Seed = r.Int63()
	}
	return sc
}

var workDir string

func main() {
	id := flag.String("prop", "", "")
	seed := flag.Int64("seed", 1, "")
	worker := flag.Int("worker", 0, "")
	workers := flag.Int("workers", 1, "")
	runs := flag.Int("runs", 1000, "")
	secs := flag.Float64("secs", 20, "")
	outDir := flag.String("out", "", "")
	work := flag.String("work", "", "")
	replay := flag.String("replay", "", "")
	only := flag.Int("only", -1, "run only this index, with log")
	dump := flag.String("dump", "", "with only: write the scenario there before it runs")
	flag.Parse()
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	rt.Watch(45)
	workDir = *work
	if props[*id] == nil {
		fail("no such property")
	}
	name := fmt.Sprintf("tree-%d", *worker)
	if *replay != "" {
		name = "tree-r"
	}
	if err := openTree(filepath.Join(*work, name)); err != nil {
		fail(err)
	}
	vshare.Root = treeRoot
	if *replay == "" {
		vshare.Dir = filepath.Join(*work, "shared")
		if err := os.MkdirAll(vshare.Dir, 0o755); err != nil {
			fail(err)
		}
	}
	loadHosted(filepath.Join(*work, "templates"))
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	if *only >= 0 {
		sc := scenarioFor(*id, *seed, *only)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
		if *dump != "" {
			b, _ := json.MarshalIndent(&Replay{Property: *id, Seed: *seed, Scenario: sc}, "", " ")
			if err := os.WriteFile(*dump, b, 0o644); err != nil {
				fail(err)
			}
		}
		w := simulate(sc, false, nil, true)
		for _, l := range w.res.Log {
			fmt.Println(l)
		}
		for _, v := range w.viol {
			fmt.Println(v.Kind, v.Msg)
		}
		fmt.Println("antecedent:", w.antec, "fired:", w.fired)
		return
	}
	st := &Stats{Fired: map[string]int{}, Units: map[string]int{}, Strategies: map[string]int{}}
	t0 := time.Now()
	hf, err := os.Create(filepath.Join(*outDir, fmt.Sprintf("hashes-%d.bin", *worker)))
	if err != nil {
		fail(err)
	}
	hw := bufio.NewWriter(hf)
	at, err := os.Create(filepath.Join(*outDir, fmt.Sprintf("at-%d", *worker)))
	if err != nil {
		fail(err)
	}
	for j := 0; j < *runs; j++ {
		if time.Since(t0).Seconds() > *secs {
			break
		}
		k := *worker + j**workers
		at.WriteAt(fmt.Appendf(nil, "%-12d", k), 0)
		sc := scenarioFor(*id, *seed, k)
		w := simulate(sc, false, nil, false)
		st.Runs++
		st.Steps += int64(w.res.Steps)
		st.Switches += int64(w.res.Switches)
		st.SimNS += w.res.SimTime
		for f, n := range w.fired {
			st.Fired[f] += n
		}
		st.Units[sc.Kind]++
		st.Strategies[sc.Strategy.Kind]++
		st.Calls += int64(len(w.procs))
		for _, p := range w.procs {
			st.Wrapped += int64(p.ops)
		}
		if w.overlap {
			st.Overlap++
		}
		if w.antec > 0 {
			st.Antecedent++
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], w.res.Hash)
			hw.Write(b[:])
			if len(st.Samples) < 2 && j%7 == 3 {
				st.Samples = append(st.Samples, sc)
			}
		}
		if len(w.viol) > 0 {
			file := filepath.Join(*outDir, fmt.Sprintf("violation-%d.json", *worker))
			save := func(rp *Replay) {
				rp.Property = *id
				rp.Seed = *seed
				b, _ := json.MarshalIndent(rp, "", " ")
				if err := os.WriteFile(file, b, 0o644); err != nil {
					fail(err)
				}
			}
			// kept in case that one of the further runs has no end
			save(&Replay{Kind: w.viol[0].Kind, Msg: w.viol[0].Msg, Scenario: sc, Choices: w.res.Choices, Hash: w.res.Hash})
			rp := minimise(sc, w, 20*time.Second)
			save(rp)
			st.Violation, st.Kind, st.Msg = file, rp.Kind, rp.Msg
			break
		}
		if j%32 == 5 {
			st.Checked++
			a := simulate(sc.clone(), false, nil, false)
			b := simulate(sc.clone(), true, w.res.Choices, false)
			if a.res.Hash != w.res.Hash || b.res.Hash != w.res.Hash {
				st.Mismatch++
				st.MisNote = fmt.Sprintf("run %d of %s (seed again: %v, replay: %v)", k, sc.Kind, a.res.Hash == w.res.Hash, b.res.Hash == w.res.Hash)
			}
		}
	}
	hw.Flush()
	hf.Close()
	st.WallS = time.Since(t0).Seconds()
	b, _ := json.Marshal(st)
	if err := os.WriteFile(filepath.Join(*outDir, fmt.Sprintf("stats-%d.json", *worker)), b, 0o644); err != nil {
		fail(err)
	}
	if os.Getenv("VSIM_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "worker", *worker, "runs", st.Runs, debugInfo())
	}
}

func fail(v any) {
	fmt.Fprintln(os.Stderr, v)
	os.Exit(2)
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fail(err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fail(err)
	}
	// a run that has no end is repeated from its seed
	w := simulate(rp.Scenario, rp.Kind != "endless", rp.Choices, true)
	for _, l := range w.res.Log {
		fmt.Println("  " + l)
	}
	for _, v := range w.viol {
		fmt.Printf("violated: %s: %s\n", v.Kind, v.Msg)
	}
	for _, v := range w.viol {
		if v.Kind == rp.Kind {
			if w.res.Hash == rp.Hash {
				fmt.Println("REPRODUCED exactly")
			} else {
				fmt.Println("REPRODUCED with a different event log")
			}
			return 1
		}
	}
	fmt.Println("not reproduced")
	return 0
}

func has(w *World, kind string) bool {
	for _, v := range w.viol {
		if v.Kind == kind {
			return true
		}
	}
	return false
}

func (sc *Scenario) clone() *Scenario {
	b, _ := json.Marshal(sc)
	var c Scenario
	if err := json.Unmarshal(b, &c); err != nil {
		fail(err)
	}
	return &c
}

func (sc *Scenario) events() int {
	n := len(sc.Steps)
	for _, s := range sc.Steps {
		n += len(s.Faults)
	}
	return n
}

func minimise(sc *Scenario, w *World, budget time.Duration) *Replay {
	kind := w.viol[0].Kind
	deadline := time.Now().Add(budget)
	left := func() bool { return time.Now().Before(deadline) }
	cur, ch := sc.clone(), w.res.Choices
	rp := &Replay{Kind: kind, Original: sc.events() + len(ch)}
	if x := simulate(cur.clone(), true, ch, false); !has(x, kind) {
		rp.Msg = "NOT REPLAYABLE: " + w.viol[0].Msg
		rp.Scenario, rp.Choices, rp.Hash = sc, ch, w.res.Hash
		return rp
	}
	try := func(c *Scenario) bool {
		if !left() {
			return false
		}
		if x := simulate(c.clone(), true, ch, false); has(x, kind) {
			cur, ch = c, x.res.Choices
			return true
		}
		for i := 0; i < 6 && left(); i++ {
			d := c.clone()
			d.Seed = seedOf("min", c.Seed, i)
			if x := simulate(d.clone(), false, nil, false); has(x, kind) {
				cur, ch = d, x.res.Choices
				return true
			}
		}
		return false
	}
	for changed := true; changed && left(); {
		changed = false
		for i := len(cur.Steps) - 1; i >= 0 && len(cur.Steps) > 1; i-- {
			c := cur.clone()
			c.Steps = append(c.Steps[:i], c.Steps[i+1:]...)
			if try(c) {
				changed = true
			}
		}
		for i := range cur.Steps {
			for j := len(cur.Steps[i].Faults) - 1; j >= 0; j-- {
				c := cur.clone()
				c.Steps[i].Faults = append(c.Steps[i].Faults[:j], c.Steps[i].Faults[j+1:]...)
				if try(c) {
					changed = true
				}
			}
		}
		edits := []func(s *Step) bool{
			func(s *Step) bool {
				r := s.Gen != nil && s.Gen.Local != ""
				if r {
					s.Gen.Local = ""
				}
				return r
			},
			func(s *Step) bool {
				r := s.Gen != nil && len(s.Gen.Vars) > 0
				if r {
					s.Gen.Vars = s.Gen.Vars[1:]
				}
				return r
			},
			func(s *Step) bool {
				r := s.Gen != nil && s.Gen.Prior != ""
				if r {
					s.Gen.Prior = ""
				}
				return r
			},
			func(s *Step) bool {
				r := s.Via == "main"
				if r {
					s.Via = ""
				}
				return r
			},
		}
		for i := range cur.Steps {
			for _, e := range edits {
				c := cur.clone()
				if e(&c.Steps[i]) && try(c) {
					changed = true
				}
			}
		}
	}
	for size := (len(ch) + 1) / 2; size >= 1 && left(); {
		ok := false
		for i := 0; i < len(ch) && left(); {
			j := min(i+size, len(ch))
			cand := append(append([]rt.Choice(nil), ch[:i]...), ch[j:]...)
			if x := simulate(cur.clone(), true, cand, false); has(x, kind) && len(x.res.Choices) < len(ch) {
				ch = x.res.Choices
				ok = true
				continue
			}
			i = j
		}
		if size == 1 && !ok {
			break
		}
		if size > 1 {
			size /= 2
		}
	}
	x := simulate(cur.clone(), true, ch, true)
	rp.Scenario, rp.Choices, rp.Hash, rp.Log, rp.All = cur, ch, x.res.Hash, x.res.Log, x.viol
	for _, v := range x.viol {
		if v.Kind == kind {
			rp.Msg = v.Msg
			break
		}
	}
	rp.Minimal = cur.events() + len(ch)
	return rp
}

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"vtool/plan"
)

const workers = 8

type stats struct {
	Runs       int               `json:"runs"`
	Antecedent int               `json:"antecedent_runs"`
	Overlap    int               `json:"overlap_runs"`
	Steps      int64             `json:"steps"`
	Switches   int64             `json:"switches"`
	SimNS      int64             `json:"sim_ns"`
	Fired      map[string]int    `json:"fired"`
	Units      map[string]int    `json:"units"`
	Strategies map[string]int    `json:"strategies"`
	Calls      int64             `json:"calls"`
	Wrapped    int64             `json:"wrapped_calls"`
	Panics     int               `json:"panicking_calls"`
	Checked    int               `json:"determinism_checks"`
	Mismatch   int               `json:"determinism_mismatches"`
	MisNote    string            `json:"mismatch_note"`
	Samples    []json.RawMessage `json:"samples"`
	WallS      float64           `json:"wall_s"`
	Violation  string            `json:"violation"`
	Kind       string            `json:"kind"`
	Msg        string            `json:"msg"`
}

// budget of the search: runs over all workers and seconds of wall clock.
func (e *env) budget() (runs int, secs float64) {
	runs, secs = 400000, 16
	if e.tier == "thorough" {
		runs, secs = 1<<30, 420
	}
	if e.secs > 0 {
		secs = e.secs
	}
	return
}

func (e *env) replayPath(kind string) string {
	dir := filepath.Join(e.verif, "replays")
	os.MkdirAll(dir, 0o755)
	return filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", e.id, clean(kind), e.seed))
}

func clean(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func (e *env) violation(path string) int {
	fmt.Printf("VIOLATION property=%s replay=%s\n", e.id, path)
	return 1
}

type compileReplay struct {
	Property string    `json:"property"`
	Kind     string    `json:"kind"`
	Unit     plan.Unit `json:"unit"`
	Msg      string    `json:"msg"`
}

// build prepares the simulation binary of the property's decorators.
func (e *env) build() (good []loaded, bad []genFailure, bin string, err error) {
	units := plan.Units(e.id)
	if err := e.prepare(units); err != nil {
		return nil, nil, "", err
	}
	failed := e.generate(units)
	skip := map[string]bool{}
	for _, f := range failed {
		skip[f.Unit.ID()] = true
	}
	var rest []plan.Unit
	for _, u := range units {
		if !skip[u.ID()] {
			rest = append(rest, u)
		}
	}
	good, more, pkgs, err := e.load(rest)
	bad = append(failed, more...)
	sort.Slice(bad, func(i, j int) bool { return bad[i].Unit.ID() < bad[j].Unit.ID() })
	if err != nil || len(good) == 0 {
		return good, bad, "", err
	}
	if err := e.instrument(good, pkgs); err != nil {
		return good, bad, "", err
	}
	bin = filepath.Join(e.work, "sim")
	if out, err := run(filepath.Join(e.work, "gen"), 10*time.Minute, "go", "build", "-o", bin, "./cmd"); err != nil {
		return good, bad, "", fmt.Errorf("building the simulation: %v\n%s", err, out)
	}
	return good, bad, bin, nil
}

// simulate runs the workers and merges what they report.
func simulate(bin, out string, args []string, runs int, secs float64) (*stats, int, error) {
	os.MkdirAll(out, 0o755)
	var wg sync.WaitGroup
	errs := make([]error, workers)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := append([]string{"-worker", fmt.Sprint(i), "-workers", fmt.Sprint(workers), "-runs", fmt.Sprint(runs/workers + 1), "-secs", fmt.Sprint(secs), "-out", out}, args...)
			o, err := run("", time.Duration(secs+90)*time.Second, bin, a...)
			if err != nil {
				errs[i] = fmt.Errorf("worker %d: %v\n%s", i, err, tail(o, 4000))
			}
		}()
	}
	wg.Wait()
	m := &stats{Fired: map[string]int{}, Units: map[string]int{}, Strategies: map[string]int{}}
	distinct := map[uint64]bool{}
	dropped := 0
	for i := 0; i < workers; i++ {
		if errs[i] != nil {
			if m.Violation != "" {
				continue
			}
			// a violation it had found before
			var rp struct{ Kind, Msg string }
			file := filepath.Join(out, fmt.Sprintf("violation-%d.json", i))
			if b, err := os.ReadFile(file); err == nil && json.Unmarshal(b, &rp) == nil && rp.Kind != "" {
				m.Violation, m.Kind, m.Msg = file, rp.Kind, rp.Msg
				m.Runs++
				continue
			}
			var kind, msg string
			file, kind, msg = endless(bin, out, i, args)
			if file == "" {
				if dropped++; dropped == workers {
					return nil, 0, errs[i]
				}
				warn("%v", errs[i])
				continue
			}
			m.Violation, m.Kind, m.Msg = file, kind, msg
			m.Runs++
			continue
		}
		b, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("stats-%d.json", i)))
		if err != nil {
			return nil, 0, err
		}
		var s stats
		if err := json.Unmarshal(b, &s); err != nil {
			return nil, 0, err
		}
		m.Runs += s.Runs
		m.Antecedent += s.Antecedent
		m.Overlap += s.Overlap
		m.Steps += s.Steps
		m.Switches += s.Switches
		m.SimNS += s.SimNS
		m.Calls += s.Calls
		m.Wrapped += s.Wrapped
		m.Panics += s.Panics
		m.Checked += s.Checked
		m.Mismatch += s.Mismatch
		if s.MisNote != "" {
			m.MisNote = s.MisNote
		}
		for k, v := range s.Fired {
			m.Fired[k] += v
		}
		for k, v := range s.Units {
			m.Units[k] += v
		}
		for k, v := range s.Strategies {
			m.Strategies[k] += v
		}
		if len(m.Samples) < 3 && len(s.Samples) > 0 {
			m.Samples = append(m.Samples, s.Samples[0])
		}
		if s.WallS > m.WallS {
			m.WallS = s.WallS
		}
		if s.Violation != "" && m.Violation == "" {
			m.Violation, m.Kind, m.Msg = s.Violation, s.Kind, s.Msg
		}
		h, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("hashes-%d.bin", i)))
		if err != nil {
			return nil, 0, err
		}
		for j := 0; j+8 <= len(h); j += 8 {
			distinct[binary.LittleEndian.Uint64(h[j:])] = true
		}
	}
	return m, len(distinct), nil
}

// endlessIn tells from its output whether a simulation ended because a run had no end.
func endlessIn(out string) string {
	for _, sign := range []string{"STUCK: ", "fatal error: stack overflow", "fatal error: all goroutines are asleep"} {
		if i := strings.Index(out, sign); i >= 0 {
			return tail2(out[i:], 1500)
		}
	}
	return ""
}

func tail2(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// endless repeats the run a worker ended in; a run that has no end is a violation.
func endless(bin, out string, worker int, args []string) (file, kind, msg string) {
	at, err := os.ReadFile(filepath.Join(out, fmt.Sprintf("at-%d", worker)))
	if err != nil || len(at) == 0 {
		return "", "", ""
	}
	file = filepath.Join(out, fmt.Sprintf("violation-%d.json", worker))
	os.Remove(file)
	o, err := run("", 3*time.Minute, bin, append([]string{"-only", strings.TrimSpace(string(at)), "-dump", file}, args...)...)
	why := endlessIn(o)
	if err == nil || why == "" {
		return "", "", ""
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return "", "", ""
	}
	var m map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if err := d.Decode(&m); err != nil {
		return "", "", ""
	}
	m["kind"], m["msg"] = "endless", "the code neither comes to an end nor to its next step: "+why
	if b, err = json.MarshalIndent(m, "", " "); err != nil {
		return "", "", ""
	}
	if err := os.WriteFile(file, b, 0o644); err != nil {
		return "", "", ""
	}
	return file, "endless", m["msg"].(string)
}

// replayCode is the exit status of a replay, also of one that had no end.
func replayCode(file, out string, code int) (int, string) {
	var m struct{ Kind string }
	if b, err := os.ReadFile(file); err == nil {
		json.Unmarshal(b, &m)
	}
	if why := endlessIn(out); m.Kind == "endless" && code != 0 && why != "" {
		return 1, "violated: endless: " + why + "\nREPRODUCED exactly\n"
	}
	return code, out
}

func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}

// unknown reports the failures that are listed as known findings and returns the others. A finding is
// identified by template, interface and what the compiler says:
//
//	finding: property=<id> key=<template>/<interface>/<text> | <description>
func (e *env) unknown(bad []genFailure) []genFailure {
	b, _ := os.ReadFile(filepath.Join(e.verif, "KNOWN_FINDINGS.txt"))
	var rest []genFailure
	for _, f := range bad {
		known := ""
		for _, l := range strings.Split(string(b), "\n") {
			l, ok := strings.CutPrefix(l, "finding: property="+e.id+" key=")
			key, text, _ := strings.Cut(l, " | ")
			k := strings.SplitN(key, "/", 3)
			if ok && len(k) == 3 && k[0] == f.Unit.Template && k[1] == f.Unit.Iface && strings.Contains(f.Msg, k[2]) {
				known = text
			}
		}
		if known == "" {
			rest = append(rest, f)
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s with %s: %s\n", e.id, f.Unit.Template, f.Unit.Iface, known)
	}
	return rest
}

func (e *env) decorators() int {
	t0 := time.Now()
	if e.replay != "" {
		return e.replayDecorator()
	}
	good, bad, bin, err := e.build()
	if err != nil {
		warn("%v", err)
		return 2
	}
	bad = e.unknown(bad)
	for _, f := range bad {
		warn("%s (%s): %s", f.Unit.ID(), f.Unit.Template, f.Msg)
	}
	// a decorator that cannot be generated or compiled does nothing of what the property says
	if len(bad) > 0 {
		f := bad[0]
		p := e.replayPath("compile")
		b, _ := json.MarshalIndent(compileReplay{e.id, "compile", f.Unit, f.Msg}, "", " ")
		os.WriteFile(p, b, 0o644)
		fmt.Printf("decorator %s: %s\n", f.Unit.ID(), f.Msg)
		e.evidence(t0, nil, 0, good, bad, 1)
		return e.violation(p)
	}
	if len(good) == 0 {
		warn("no decorator to simulate")
		return 2
	}
	runs, secs := e.budget()
	m, distinct, err := simulate(bin, filepath.Join(e.work, "out"), []string{"-prop", e.id, "-seed", fmt.Sprint(e.seed)}, runs, secs)
	if err != nil {
		warn("%v", err)
		return 2
	}
	viol := 0
	if m.Violation != "" {
		viol = 1
	}
	e.evidence(t0, m, distinct, good, bad, viol)
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct), %d calls, %.0fs simulated, %d decorators, %.1fs\n", e.id, m.Runs, m.Antecedent, distinct, m.Calls, float64(m.SimNS)/1e9, len(good), time.Since(t0).Seconds())
	if m.Mismatch > 0 {
		warn("%d runs did not repeat exactly: %s", m.Mismatch, m.MisNote)
		if viol == 0 {
			return 2
		}
	}
	if viol == 0 {
		if m.Antecedent == 0 {
			warn("the property's antecedent never came up")
			return 2
		}
		return 0
	}
	p := e.replayPath(m.Kind)
	b, err := os.ReadFile(m.Violation)
	if err != nil {
		warn("%v", err)
		return 2
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		warn("%v", err)
		return 2
	}
	fmt.Printf("%s: %s: %s\n", e.id, m.Kind, m.Msg)
	code, out := e.replayIn(bin, p)
	if code != 1 {
		warn("the violation does not reproduce in a fresh process:\n%s", tail(out, 3000))
		return 2
	}
	if strings.Contains(out, "REPRODUCED exactly") {
		fmt.Println("replayed in a fresh process: reproduced exactly")
	}
	return e.violation(p)
}

func (e *env) replayIn(bin, p string) (int, string) {
	cmd := exec.Command(bin, "-prop", e.id, "-replay", p)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	if err == nil {
		return 0, buf.String()
	}
	if x, ok := err.(*exec.ExitError); ok {
		return replayCode(p, buf.String(), x.ExitCode())
	}
	return 2, err.Error()
}

func (e *env) replayDecorator() int {
	b, err := os.ReadFile(e.replay)
	if err != nil {
		warn("%v", err)
		return 2
	}
	var c compileReplay
	json.Unmarshal(b, &c)
	_, bad, bin, err := e.build()
	if err != nil {
		warn("%v", err)
		return 2
	}
	if c.Kind == "compile" {
		for _, f := range bad {
			if f.Unit.ID() == c.Unit.ID() {
				fmt.Println(f.Msg)
				return e.violation(e.replay)
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	code, out := e.replayIn(bin, e.replay)
	fmt.Print(out)
	if code == 1 {
		return e.violation(e.replay)
	}
	return code
}

func (e *env) evidence(t0 time.Time, m *stats, distinct int, good []loaded, bad []genFailure, viol int) {
	cov := map[string]any{}
	var real []string
	for _, l := range good {
		real = append(real, l.unit.Template+"/"+l.unit.Iface+map[bool]string{true: " (same package)"}[l.unit.Same])
	}
	var lost []string
	for _, f := range bad {
		lost = append(lost, f.Unit.ID()+": "+f.Msg)
	}
	if m == nil {
		m = &stats{}
	}
	samples := []any{}
	for _, s := range m.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "no run")
	}
	wall := time.Since(t0).Seconds()
	cov["evaluations"] = m.Runs
	cov["distinct_nontrivial"] = distinct
	cov["rule"] = "A case is one simulated run: a generated decorator, a random scenario (callers, contexts, wrapped-call behaviour, faults) and a random schedule, all derived from the seed. It is non-trivial when the situation the property speaks about came up at least once in it; two runs are the same when the decorator and the sequence of scheduling decisions with the operations performed are the same."
	cov["samples"] = samples
	cov["nontrivial_runs"] = m.Antecedent
	cov["runs_with_overlapping_calls"] = m.Overlap
	cov["decorator_calls"] = m.Calls
	cov["wrapped_calls"] = m.Wrapped
	cov["panicking_calls"] = m.Panics
	cov["scheduling_steps"] = m.Steps
	cov["context_switches"] = m.Switches
	cov["simulated_seconds"] = float64(m.SimNS) / 1e9
	if m.WallS > 0 {
		cov["runs_per_hour"] = int64(float64(m.Runs) / m.WallS * 3600)
		cov["seeds_per_hour"] = int64(float64(m.Runs) / m.WallS * 3600)
	}
	cov["faults_injected"] = m.Fired
	cov["schedulers"] = m.Strategies
	cov["runs_per_decorator"] = m.Units
	cov["determinism_rechecks"] = m.Checked
	cov["determinism_mismatches"] = m.Mismatch
	cov["real_components"] = map[string]any{"decorators generated from /repo/templates by the gowrap binary built from /repo": real}
	cov["stub_components"] = []string{"wrapped implementations and callers (scenario-driven)", "goroutine scheduler, channels, select, sync, sync/atomic, time, context, math/rand (simulated, vsim/rt and vsim/shim)", "go.opentelemetry.io/otel (recording stand-in, src/otelstub)"}
	if len(lost) > 0 {
		cov["decorators_not_simulated"] = lost
	}
	ev := map[string]any{
		"property": e.id, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{"the rewriting of the generated code onto the simulator keeps its meaning", "simulated sync, time, context and channels behave as Go documents them", "third-party libraries behind the observability decorators run unmodified, on the simulated goroutine that calls them"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(e.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, e.id+".json"), append(b, '\n'), 0o644)
}

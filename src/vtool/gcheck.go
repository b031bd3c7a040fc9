package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/mod/modfile"

	"vtool/rewrite"
)

const gowrapPath = "github.com/hexdigest/gowrap"

// toolShims are the redirections for the code of the tool itself.
func toolShims() map[string]string {
	m := rewrite.DefaultShims()
	for std, p := range map[string]string{"os": "vos", "io/ioutil": "vioutil", "os/exec": "vexec", "go/parser": "vparser", "flag": "vflag", "fmt": "vfmt", "log": "vlog", "maps": "vmaps"} {
		m[std] = "vsim/shim/" + p
	}
	m["path/filepath"] = "vsim/shim/vfilepath"
	return m
}

// modulePath of the repository.
func modulePath(repo string) (*modfile.File, error) {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	return modfile.Parse("go.mod", b, nil)
}

// buildTool rewrites the whole tool onto the simulator and links it with the simulation of its world.
func (e *env) buildTool() (bin string, real []string, err error) {
	if !strings.HasPrefix(e.work, e.verif+"/.cache/") {
		return "", nil, fmt.Errorf("bad scratch directory %s", e.work)
	}
	if err := os.RemoveAll(e.work); err != nil {
		return "", nil, err
	}
	src := filepath.Join(e.verif, "src")
	dir := filepath.Join(e.work, "gsim")
	if err := copyTree(filepath.Join(src, "gsim"), dir); err != nil {
		return "", nil, err
	}
	mf, err := modulePath(e.repo)
	if err != nil {
		return "", nil, err
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "module gsim\n\ngo %s\n\nrequire (\n", mf.Go.Version)
	for _, r := range mf.Require {
		fmt.Fprintf(&b, "\t%s %s\n", r.Mod.Path, r.Mod.Version)
	}
	fmt.Fprintf(&b, "\t%s v0.0.0\n\tvsim v0.0.0\n)\n\nreplace (\n\t%s => %s\n\tvsim => %s\n)\n", gowrapPath, gowrapPath, e.repo, filepath.Join(src, "vsim"))
	for _, r := range mf.Replace {
		fmt.Fprintf(&b, "replace %s %s => %s %s\n", r.Old.Path, r.Old.Version, r.New.Path, r.New.Version)
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), b.Bytes(), 0o644); err != nil {
		return "", nil, err
	}
	sum, err := os.ReadFile(filepath.Join(e.repo, "go.sum"))
	if err != nil {
		return "", nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return "", nil, err
	}
	sh, err := rewrite.LoadShims(filepath.Join(src, "vsim"), toolShims())
	if err != nil {
		return "", nil, err
	}
	more, err := rewrite.LoadShims(dir, map[string]string{"golang.org/x/tools/go/packages": "gsim/vpackages", "golang.org/x/tools/imports": "gsim/vimports"})
	if err != nil {
		return "", nil, err
	}
	for k, v := range more {
		sh[k] = v
	}
	pkgs, _, err := rewrite.Load(e.repo, nil, nil, "./...")
	if err != nil {
		return "", nil, err
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	out := filepath.Join(e.work, "rewritten")
	os.MkdirAll(out, 0o755)
	overlay := map[string]string{}
	sites := &rewrite.Sites{}
	n := 0
	for _, p := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, gowrapPath), "/")
		if rel == "tools" || strings.HasPrefix(rel, "templates_tests") {
			continue
		}
		cmd := p.Name == "main"
		var inits []string
		if cmd {
			if rel != "cmd/gowrap" {
				continue
			}
			for _, f := range p.Syntax {
				f.Name.Name = "gowrapcmd"
				for _, d := range f.Decls {
					fd, ok := d.(*ast.FuncDecl)
					if !ok || fd.Recv != nil {
						continue
					}
					switch fd.Name.Name {
					case "main":
						fd.Name.Name = "VsimMain"
					case "init":
						fd.Name.Name = fmt.Sprintf("vsimInit%d", len(inits))
						inits = append(inits, fd.Name.Name)
					}
				}
			}
		}
		err := rewrite.Package(p, sh, sites, e.repo, e.id != "G02", true, func(file string, src []byte) error {
			n++
			to := filepath.Join(out, fmt.Sprintf("%02d_%s", n, filepath.Base(file)))
			overlay[file] = to
			if filepath.Base(file) != "vsim_reinit.go" {
				r, _ := filepath.Rel(e.repo, file)
				real = append(real, r)
			}
			return os.WriteFile(to, src, 0o644)
		})
		if err != nil {
			return "", nil, fmt.Errorf("instrumenting %s: %v", p.PkgPath, err)
		}
		if cmd {
			var b bytes.Buffer
			fmt.Fprintf(&b, "package gowrapcmd\n\nfunc VsimInit() {\n")
			for _, i := range inits {
				fmt.Fprintf(&b, "\t%s()\n", i)
			}
			fmt.Fprintf(&b, "}\n")
			to := filepath.Join(out, "vsim_inits.go")
			if err := os.WriteFile(to, b.Bytes(), 0o644); err != nil {
				return "", nil, err
			}
			overlay[filepath.Join(e.repo, "cmd", "gowrap", "vsim_inits.go")] = to
		}
	}
	if n == 0 {
		return "", nil, fmt.Errorf("no package of %s found in %s", gowrapPath, e.repo)
	}
	ov, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	ovf := filepath.Join(e.work, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", nil, err
	}
	var g bytes.Buffer
	fmt.Fprintf(&g, "package main\n\nfunc init() {\n\tsiteNames = []string{\"\",\n")
	for _, s := range sites.List {
		fmt.Fprintf(&g, "\t%q,\n", s)
	}
	fmt.Fprintf(&g, "}\n}\n")
	if err := os.WriteFile(filepath.Join(dir, "sites.go"), g.Bytes(), 0o644); err != nil {
		return "", nil, err
	}
	bin = filepath.Join(e.work, "sim")
	if o, err := run(dir, 10*time.Minute, "go", "build", "-overlay", ovf, "-o", bin, "."); err != nil {
		return "", nil, fmt.Errorf("building the simulation: %v\n%s", err, tail(o, 6000))
	}
	// the world's copies of the hosted templates
	return bin, real, copyTree(filepath.Join(e.repo, "templates"), filepath.Join(e.work, "templates"))
}

func (e *env) gArgs() []string {
	return []string{"-prop", e.id, "-seed", fmt.Sprint(e.seed), "-work", e.work}
}

// tool decides a property of the tool itself.
func (e *env) tool() int {
	t0 := time.Now()
	bin, real, err := e.buildTool()
	if err != nil {
		warn("%v", err)
		return 2
	}
	replay := func(p string) (int, string) {
		cmd := exec.Command(bin, append(e.gArgs(), "-replay", p)...)
		out, err := cmd.CombinedOutput()
		if err == nil {
			return 0, string(out)
		}
		if x, ok := err.(*exec.ExitError); ok {
			return replayCode(p, string(out), x.ExitCode())
		}
		return 2, err.Error()
	}
	if e.replay != "" {
		code, out := replay(e.replay)
		fmt.Print(out)
		if code == 1 {
			return e.violation(e.replay)
		}
		return code
	}
	runs, secs := e.budget()
	if e.tier != "thorough" && e.secs == 0 {
		secs = 25
		switch e.id {
		case "G01", "G02", "G03", "G04", "G05":
			secs = 50 // these run the import fixer and the package loader a lot
		}
	}
	m, distinct, err := simulate(bin, filepath.Join(e.work, "out"), e.gArgs(), runs, secs)
	if err != nil {
		warn("%v", err)
		return 2
	}
	viol := 0
	if m.Violation != "" {
		viol = 1
	}
	e.toolEvidence(t0, m, distinct, real, viol)
	fmt.Printf("%s: %d runs (%d non-trivial, %d distinct), %d commands, %.1fs\n", e.id, m.Runs, m.Antecedent, distinct, m.Calls, time.Since(t0).Seconds())
	if m.Mismatch > 0 {
		warn("%d runs did not repeat exactly: %s", m.Mismatch, m.MisNote)
		if viol == 0 {
			return 2
		}
	}
	if viol == 0 {
		if m.Antecedent == 0 {
			warn("the property's antecedent never came up")
			return 2
		}
		return 0
	}
	p := e.replayPath(m.Kind)
	b, err := os.ReadFile(m.Violation)
	if err == nil {
		err = os.WriteFile(p, b, 0o644)
	}
	if err != nil {
		warn("%v", err)
		return 2
	}
	fmt.Printf("%s: %s: %s\n", e.id, m.Kind, m.Msg)
	code, out := replay(p)
	if code != 1 {
		warn("the violation does not reproduce in a fresh process:\n%s", tail(out, 3000))
		return 2
	}
	if strings.Contains(out, "REPRODUCED exactly") {
		fmt.Println("replayed in a fresh process: reproduced exactly")
	}
	return e.violation(p)
}

func (e *env) toolEvidence(t0 time.Time, m *stats, distinct int, real []string, viol int) {
	samples := []any{}
	for _, s := range m.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "no run")
	}
	cov := map[string]any{
		"evaluations":                 m.Runs,
		"distinct_nontrivial":         distinct,
		"rule":                        "A case is one simulated run: a random scenario (commands, prior state of the files, working directories, hosted templates and their history, faults, kills) and a random schedule with random orders of unordered collections, all derived from the seed. It is non-trivial when the situation the property speaks about came up at least once in it; two runs are the same when the sequence of scheduling decisions, of operations performed on files, network and go tool and of their outcomes is the same.",
		"samples":                     samples,
		"nontrivial_runs":             m.Antecedent,
		"runs_with_overlapping_calls": m.Overlap,
		"commands_run":                m.Calls,
		"operations":                  m.Wrapped,
		"scheduling_steps":            m.Steps,
		"context_switches":            m.Switches,
		"simulated_seconds":           float64(m.SimNS) / 1e9,
		"faults_injected":             m.Fired,
		"schedulers":                  m.Strategies,
		"runs_per_scenario_kind":      m.Units,
		"determinism_rechecks":        m.Checked,
		"determinism_mismatches":      m.Mismatch,
		"real_components": map[string]any{
			"gowrap, rewritten onto the simulator": real,
			"unmodified":                           []string{"text/template, sprig, go/ast, go/printer", "golang.org/x/tools/go/packages with the go command, golang.org/x/tools/imports (results kept per state of the files)", "net/http client", "the file system below a scratch directory, git"},
		},
		"stub_components": []string{"network: an http.RoundTripper that plays GitHub and other hosts", "file, directory, process, exit, command line and standard stream operations announced to the fault injector (vsim/shim/vos, vexec, vflag, vparser)", "goroutine scheduler, sync, time, context, map iteration order (vsim/rt)"},
	}
	if m.WallS > 0 {
		cov["runs_per_hour"] = int64(float64(m.Runs) / m.WallS * 3600)
		cov["seeds_per_hour"] = int64(float64(m.Runs) / m.WallS * 3600)
	}
	ev := map[string]any{
		"property": e.id, "tier": e.tier, "seed": e.seed, "level": "exploration", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": viol,
		"assumptions": []string{"the rewriting of gowrap's code onto the simulator keeps its meaning", "a killed process loses nothing it had already handed to the operating system", "the go command and golang.org/x/tools give the same answer for the same files"},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(e.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, e.id+".json"), append(b, '\n'), 0o644)
}

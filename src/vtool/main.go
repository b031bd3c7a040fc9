// Command vtool builds and runs the simulations of the properties.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type env struct {
	id, repo, verif, tier, replay string
	seed                          int64
	work                          string // scratch directory of this check
	secs                          float64
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vtool <property> [--replay file] [--secs n]")
		os.Exit(2)
	}
	e := &env{id: os.Args[1], repo: "/repo", verif: "/verif", tier: "quick", seed: 1}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		e.repo = v
	}
	if v := os.Getenv("VERIF_DIR"); v != "" {
		e.verif = v
	}
	if v := os.Getenv("VERIF_TIER"); v == "thorough" {
		e.tier = v
	}
	if v := os.Getenv("VERIF_SEED"); v != "" {
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			fmt.Fprintln(os.Stderr, "VERIF_SEED:", err)
			os.Exit(2)
		}
		e.seed = n
	}
	for i := 2; i+1 < len(os.Args); i += 2 {
		switch os.Args[i] {
		case "--replay":
			e.replay, _ = filepath.Abs(os.Args[i+1])
		case "--tier":
			e.tier = os.Args[i+1]
		case "--secs":
			e.secs, _ = strconv.ParseFloat(os.Args[i+1], 64)
		}
	}
	e.work = filepath.Join(e.verif, ".cache", e.id)
	if strings.HasPrefix(e.id, "G") {
		os.Exit(e.tool())
	}
	os.Exit(e.decorators())
}

func warn(f string, a ...any) { fmt.Fprintf(os.Stderr, "vtool: "+f+"\n", a...) }

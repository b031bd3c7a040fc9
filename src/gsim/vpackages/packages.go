// Package vpackages replaces golang.org/x/tools/go/packages: loading is one announced operation
// that can fail, and its result is kept for as long as the files it depends on stay the same.
package vpackages

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/packages"

	"gsim/vshare"
	"vsim/rt"
	"vsim/shim/vos"
)

// State identifies everything loading pattern in dir depends on.
var State func(dir, pattern string) string

// PackageError is injected as an error of the package instead of one of the driver.
type PackageError struct{ Err packages.Error }

func (p PackageError) Error() string { return p.Err.Error() }

var memo = map[string][]*packages.Package{}
var memoErr = map[string]error{}

// Misses counts calls of the real loader.
var Misses int

func Load(cfg *packages.Config, patterns ...string) (res []*packages.Package, err error) {
	if cfg == nil {
		cfg = &packages.Config{}
	}
	dir := cfg.Dir
	if dir == "" {
		dir, _ = os.Getwd()
	}
	e := vos.Do("load", strings.Join(patterns, " "), func() error {
		if State == nil || cfg.Overlay != nil || cfg.ParseFile != nil || cfg.Fset != nil {
			Misses++
			rt.Outside(func() { res, err = packages.Load(cfg, patterns...) })
			return nil
		}
		key := fmt.Sprint(int(cfg.Mode), cfg.Tests, cfg.Env, cfg.BuildFlags, "|", dir, "|", strings.Join(patterns, " "))
		for _, p := range patterns {
			key += "|" + State(dir, p)
		}
		r, ok := memo[key]
		if !ok {
			shareable := cfg.Mode&^plain == 0
			if shareable {
				if text, has := vshare.Get("load|" + key); has {
					r, ok = decode(text)
				}
			}
			var err error
			if !ok {
				Misses++
				rt.Outside(func() { r, err = packages.Load(cfg, patterns...) })
				if err == nil && shareable {
					if text, ok := encode(r); ok {
						vshare.Put("load|"+key, text)
					}
				}
			}
			memo[key], memoErr[key] = r, err
		}
		res, err = clone(r), memoErr[key]
		return nil
	})
	var pe PackageError
	if errors.As(e, &pe) {
		return []*packages.Package{{ID: patterns[0], PkgPath: patterns[0], Errors: []packages.Error{pe.Err}}}, nil
	}
	if e != nil {
		return nil, fmt.Errorf("err: %w: stderr: ", e)
	}
	return res, err
}

// clone copies the package graph, as every call of the loader returns its own.
func clone(l []*packages.Package) []*packages.Package {
	seen := map[*packages.Package]*packages.Package{}
	var cp func(p *packages.Package) *packages.Package
	cp = func(p *packages.Package) *packages.Package {
		if c := seen[p]; c != nil {
			return c
		}
		c := *p
		seen[p] = &c
		c.GoFiles = append([]string(nil), p.GoFiles...)
		c.CompiledGoFiles = append([]string(nil), p.CompiledGoFiles...)
		c.OtherFiles = append([]string(nil), p.OtherFiles...)
		c.IgnoredFiles = append([]string(nil), p.IgnoredFiles...)
		c.Errors = append([]packages.Error(nil), p.Errors...)
		if p.Imports != nil {
			c.Imports = make(map[string]*packages.Package, len(p.Imports))
			for k, v := range p.Imports {
				c.Imports[k] = cp(v)
			}
		}
		return &c
	}
	var r []*packages.Package
	for _, p := range l {
		r = append(r, cp(p))
	}
	return r
}

// plain are the modes whose results are nothing but names.
const plain = packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedEmbedFiles | packages.NeedEmbedPatterns

type graph struct {
	Roots    []string
	Packages []*packages.Package
}

func encode(l []*packages.Package) (string, bool) {
	g := graph{}
	ok := true
	seen := map[string]*packages.Package{}
	var add func(p *packages.Package)
	add = func(p *packages.Package) {
		if o := seen[p.ID]; o != nil {
			ok = ok && o == p
			return
		}
		seen[p.ID] = p
		g.Packages = append(g.Packages, p)
		for _, i := range p.Imports {
			add(i)
		}
	}
	for _, p := range l {
		g.Roots = append(g.Roots, p.ID)
		add(p)
	}
	b, err := json.Marshal(g)
	return string(b), ok && err == nil
}

func decode(text string) ([]*packages.Package, bool) {
	var g graph
	if json.Unmarshal([]byte(text), &g) != nil {
		return nil, false
	}
	by := map[string]*packages.Package{}
	for _, p := range g.Packages {
		by[p.ID] = p
	}
	for _, p := range g.Packages {
		for k, i := range p.Imports {
			if by[i.ID] == nil {
				return nil, false
			}
			p.Imports[k] = by[i.ID]
		}
	}
	r := []*packages.Package{}
	for _, id := range g.Roots {
		if by[id] == nil {
			return nil, false
		}
		r = append(r, by[id])
	}
	return r, true
}

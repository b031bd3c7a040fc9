package main

import (
	"crypto/sha256"
	"embed"
	"fmt"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

//go:embed all:testdata/kit
var kitFS embed.FS

// kit is the pristine content of the scratch tree.
var kit = map[string]string{}
var kitDirs = map[string]bool{}

// treeRoot is the root of the simulated machine's project.
var treeRoot string

var pristineTime = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func openTree(root string) error {
	if !strings.Contains(root, "/.cache/") {
		return fmt.Errorf("bad scratch directory %s", root)
	}
	treeRoot = root
	if err := os.RemoveAll(root); err != nil {
		return err
	}
	err := fs.WalkDir(kitFS, "testdata/kit", func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(p, "testdata/kit"), "/")
		if d.IsDir() {
			kitDirs[rel] = true
			return nil
		}
		b, err := kitFS.ReadFile(p)
		if rel == "go.mod.txt" {
			rel = "go.mod"
		}
		kit[rel] = string(b)
		return err
	})
	if err != nil {
		return err
	}
	// links are part of the kit only as files
	if err := os.MkdirAll(root, 0o755); err != nil {
		return err
	}
	if out, err := exec.Command("git", "init", "-q", root).CombinedOutput(); err != nil {
		return fmt.Errorf("git init: %v: %s", err, out)
	}
	return resetTree(nil)
}

// resetTree gives the tree its pristine content plus extra files.
func resetTree(extra map[string]string) error {
	os.Chdir("/")
	want := map[string]string{}
	for p, c := range kit {
		want[p] = c
	}
	dirs := map[string]bool{}
	for d := range kitDirs {
		dirs[d] = true
	}
	for p, c := range extra {
		want[p] = c
		if c == "@gone" {
			delete(want, p)
		}
	}
	for p := range want {
		for d := path.Dir(p); d != "."; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	ok := map[string]bool{}
	var drop []string
	filepath.Walk(treeRoot, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(treeRoot, p)
		if rel == "." {
			return nil
		}
		if rel == ".git" {
			return filepath.SkipDir
		}
		if fi.IsDir() {
			if !dirs[rel] {
				drop = append(drop, p)
				return filepath.SkipDir
			}
			return nil
		}
		c, in := want[rel]
		if in && fi.Mode().IsRegular() && fi.Mode().Perm() == 0o644 && fi.Size() == int64(len(c)) && fi.ModTime().Equal(pristineTime) && c == kit[rel] {
			ok[rel] = true
			return nil
		}
		drop = append(drop, p)
		return nil
	})
	for _, p := range drop {
		if !strings.HasPrefix(p, treeRoot+"/") {
			return fmt.Errorf("bad path %s", p)
		}
		if err := os.RemoveAll(p); err != nil {
			return err
		}
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		if err := os.MkdirAll(filepath.Join(treeRoot, d), 0o755); err != nil {
			return err
		}
	}
	for rel, c := range want {
		if ok[rel] {
			continue
		}
		p := filepath.Join(treeRoot, rel)
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			return err
		}
		if _, pristine := kit[rel]; pristine {
			os.Chtimes(p, pristineTime, pristineTime)
		}
	}
	return nil
}

// header is what the go command needs to know about a file, and the local packages it imports.
type header struct {
	key     string
	imports []string
}

var headers = map[[32]byte]header{}

func headerOf(src []byte) header {
	h := sha256.Sum256(src)
	if x, ok := headers[h]; ok {
		return x
	}
	var x header
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", src, parser.ImportsOnly|parser.ParseComments)
	if err != nil {
		x.key = string(src)
	} else {
		x.key = f.Name.Name
		for _, c := range f.Comments {
			for _, l := range c.List {
				if strings.HasPrefix(l.Text, "//go:build") || strings.HasPrefix(l.Text, "// +build") || strings.HasPrefix(l.Text, "//go:embed") {
					x.key += "\n" + l.Text
				}
			}
		}
		for _, i := range f.Imports {
			x.key += " " + i.Path.Value
			p, _ := strconv.Unquote(i.Path.Value)
			if p == modPath || strings.HasPrefix(p, modPath+"/") {
				x.imports = append(x.imports, p)
			}
		}
	}
	headers[h] = x
	return x
}

const modPath = "example.com/shop"

// loadState identifies what loading a package depends on: the headers of its files and of the
// local packages it imports.
func loadState(dir, pattern string) string {
	var b strings.Builder
	if !inModule() {
		b.WriteString("no module ")
	}
	seen := map[string]bool{}
	var visit func(d string)
	visit = func(d string) {
		d = filepath.Clean(d)
		if seen[d] {
			return
		}
		seen[d] = true
		fmt.Fprintf(&b, "[%s", d)
		l, err := os.ReadDir(d)
		if err != nil {
			fmt.Fprintf(&b, "!%v]", os.IsNotExist(err))
			return
		}
		fmt.Fprintf(&b, "]%d", min(len(l), 1))
		for _, e := range l {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			src, err := os.ReadFile(filepath.Join(d, e.Name()))
			if err != nil {
				fmt.Fprintf(&b, "?%s", e.Name())
				continue
			}
			h := headerOf(src)
			fmt.Fprintf(&b, "%s:%s;", e.Name(), h.key)
			for _, i := range h.imports {
				visit(filepath.Join(treeRoot, strings.TrimPrefix(i, modPath)))
			}
		}
	}
	switch {
	case filepath.IsAbs(pattern):
		visit(pattern)
	case strings.HasPrefix(pattern, "."):
		visit(filepath.Join(dir, pattern))
	case pattern == modPath || strings.HasPrefix(pattern, modPath+"/"):
		visit(filepath.Join(treeRoot, strings.TrimPrefix(pattern, modPath)))
	}
	return b.String()
}

// importState identifies what fixing the imports of a file depends on.
func importState(file string) string {
	h := sha256.New()
	if !inModule() {
		h.Write([]byte("no module"))
	}
	l, err := os.ReadDir(filepath.Dir(file))
	if err != nil {
		return "none"
	}
	for _, e := range l {
		if strings.HasSuffix(e.Name(), ".go") && e.Name() != filepath.Base(file) {
			b, _ := os.ReadFile(filepath.Join(filepath.Dir(file), e.Name()))
			fmt.Fprintf(h, "%s\x00%s\x00", e.Name(), b)
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil))
}

// inModule tells whether the tree is a module, as it is unless the scenario does without.
func inModule() bool {
	_, err := os.Stat(filepath.Join(treeRoot, "go.mod"))
	return err == nil
}

// norm makes a text independent of where the tree lies.
func norm(s string) string { return strings.ReplaceAll(s, treeRoot, "/T") }

// abs is the place of a tree file.
func abs(rel string) string {
	if filepath.IsAbs(rel) {
		return rel
	}
	return filepath.Join(treeRoot, rel)
}

// get reads a tree file; ok is false if there is none.
func get(rel string) (string, bool) {
	b, err := os.ReadFile(abs(rel))
	return string(b), err == nil
}

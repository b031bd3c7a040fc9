// Package vimports replaces golang.org/x/tools/imports: processing is one announced operation
// that can fail, and its result is kept for as long as the files it depends on stay the same.
package vimports

import (
	"fmt"
	"os"
	"path/filepath"

	"golang.org/x/tools/imports"

	"gsim/vshare"
	"vsim/rt"
	"vsim/shim/vos"
)

// State identifies everything processing the file depends on.
var State func(file string) string

type result struct {
	out []byte
	err error
}

var memo = map[string]result{}

// Misses counts calls of the real function.
var Misses int

func Process(filename string, src []byte, opt *imports.Options) (out []byte, err error) {
	e := vos.Do("imports", filename, func() error {
		prefix := *rt.R(&imports.LocalPrefix, 0)
		if State == nil || src == nil || opt != nil {
			Misses++
			rt.Outside(func() { out, err = imports.Process(filename, src, opt) })
			return nil
		}
		abs := filename
		if !filepath.IsAbs(abs) {
			wd, _ := os.Getwd()
			abs = filepath.Join(wd, abs)
		}
		key := fmt.Sprintf("%s|%s|%s|%s|%s", filename, abs, prefix, State(abs), src)
		r, ok := memo[key]
		if !ok {
			if text, has := vshare.Get("imports|" + key); has {
				r.out = []byte(text)
			} else {
				Misses++
				rt.Outside(func() { r.out, r.err = imports.Process(filename, src, opt) })
				if r.err == nil && r.out != nil {
					vshare.Put("imports|"+key, string(r.out))
				}
			}
			memo[key] = r
		}
		out, err = append([]byte(nil), r.out...), r.err
		return nil
	})
	if e != nil {
		return nil, e
	}
	return out, err
}

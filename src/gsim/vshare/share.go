// Package vshare keeps the results of the real package loader and the real import fixer for all
// workers of a check, under everything these depend on.
package vshare

import (
	"crypto/sha256"
	"encoding/hex"
	"os"
	"path/filepath"
	"strings"
)

// Dir is where the results lie; there are none if empty.
var Dir string

// Root is the worker's tree, which results do not depend on.
var Root string

const mark = "/@tree@"

func file(key string) string {
	h := sha256.Sum256([]byte(strings.ReplaceAll(key, Root, mark)))
	return filepath.Join(Dir, hex.EncodeToString(h[:]))
}

// Get returns the result for the key.
func Get(key string) (string, bool) {
	if Dir == "" {
		return "", false
	}
	b, err := os.ReadFile(file(key))
	return strings.ReplaceAll(string(b), mark, Root), err == nil
}

// Put keeps the result for the key.
func Put(key, val string) {
	if Dir == "" || strings.Contains(val, mark) {
		return
	}
	f := file(key)
	t, err := os.CreateTemp(Dir, "new")
	if err != nil {
		return
	}
	_, err = t.WriteString(strings.ReplaceAll(val, Root, mark))
	if t.Close() != nil || err != nil || os.Rename(t.Name(), f) != nil {
		os.Remove(t.Name())
	}
}

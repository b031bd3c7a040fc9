// Package vfilepath replaces what path/filepath reads from the file system.
package vfilepath

import (
	"io/fs"
	"path/filepath"

	"vsim/shim/vos"
)

func EvalSymlinks(path string) (r string, err error) {
	e := vos.Do("stat", path, func() error { r, err = filepath.EvalSymlinks(path); return nil })
	if e != nil {
		return "", &fs.PathError{Op: "lstat", Path: path, Err: e}
	}
	return
}

func Glob(pattern string) (r []string, err error) {
	if e := vos.Do("readdir", pattern, func() error { r, err = filepath.Glob(pattern); return nil }); e != nil {
		return nil, nil // Glob ignores I/O errors
	}
	return
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	return filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d != nil && d.IsDir() && err == nil {
			if e := vos.Do("readdir", p, func() error { return nil }); e != nil {
				return fn(p, d, &fs.PathError{Op: "open", Path: p, Err: e})
			}
		}
		return fn(p, d, err)
	})
}

func Walk(root string, fn filepath.WalkFunc) error {
	return filepath.Walk(root, func(p string, d fs.FileInfo, err error) error {
		if d != nil && d.IsDir() && err == nil {
			if e := vos.Do("readdir", p, func() error { return nil }); e != nil {
				return fn(p, d, &fs.PathError{Op: "open", Path: p, Err: e})
			}
		}
		return fn(p, d, err)
	})
}

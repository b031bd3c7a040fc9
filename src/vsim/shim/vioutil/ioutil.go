// Package vioutil replaces io/ioutil.
package vioutil

import (
	"os"

	"vsim/shim/vos"
)

func ReadFile(name string) ([]byte, error)                    { return vos.ReadFile(name) }
func WriteFile(name string, b []byte, perm os.FileMode) error { return vos.WriteFile(name, b, perm) }
func TempFile(dir, pattern string) (*vos.File, error)         { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)             { return vos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]os.FileInfo, error) {
	l, err := vos.ReadDir(name)
	var r []os.FileInfo
	for _, e := range l {
		if fi, err := e.Info(); err == nil {
			r = append(r, fi)
		}
	}
	return r, err
}

// Package ioutil replaces io/ioutil in the instrumented sources; see shim/os.
package ioutil

import (
	"io/fs"

	os "verifsim/shim/os"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }

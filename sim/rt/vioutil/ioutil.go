// Package ioutil stands for io/ioutil, on the simulated disk.
package ioutil

import (
	"io/fs"

	os "github.com/leonelquinteros/gotext/vsimrt/vos"
)

func ReadFile(name string) ([]byte, error) { return os.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(name, data, perm)
}
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func ReadDir(dirname string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(dirname)
	var out []fs.FileInfo
	for _, e := range l {
		if fi, err := e.Info(); err == nil {
			out = append(out, fi)
		}
	}
	return out, err
}

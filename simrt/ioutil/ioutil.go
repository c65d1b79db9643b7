// Package ioutil replaces io/ioutil under simulation.
package ioutil

import (
	"io"
	"io/fs"

	"verif.local/simrt/os"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)               { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser               { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                 { return os.ReadFile(n) }
func WriteFile(n string, d []byte, p fs.FileMode) error { return os.WriteFile(n, d, p) }
func TempFile(dir, pattern string) (*os.File, error)    { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return os.MkdirTemp(dir, pattern) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	l, err := os.ReadDir(n)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, e := range l {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, i)
	}
	return out, nil
}

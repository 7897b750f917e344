// Package xioutil replaces package io/ioutil in simulation builds.
package xioutil

import (
	"io"
	"io/fs"
	"os"

	"verif.local/simrt/xos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)                  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser                  { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)                    { return xos.ReadFile(n) }
func WriteFile(n string, b []byte, perm os.FileMode) error { return xos.WriteFile(n, b, perm) }
func TempDir(dir, pattern string) (string, error)          { return xos.MkdirTemp(dir, pattern) }
func TempFile(dir, pattern string) (*xos.File, error)      { return xos.CreateTemp(dir, pattern) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	l, err := xos.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

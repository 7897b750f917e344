// Package xfilepath replaces package path/filepath in simulation builds.
package xfilepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"strings"

	"verif.local/simrt/xos"
)

func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return path.Clean(p), nil
	}
	return path.Join("/data", p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := xos.Stat(p); err != nil {
		return "", err
	}
	return path.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := path.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := path.Split(pattern)
	if strings.ContainsAny(dir, "*?[") {
		dirs, err := Glob(path.Clean(dir))
		if err != nil {
			return nil, err
		}
		var out []string
		for _, d := range dirs {
			m, _ := Glob(path.Join(d, file))
			out = append(out, m...)
		}
		return out, nil
	}
	if dir != "/" {
		dir = strings.TrimSuffix(dir, "/")
	}
	// like the real one, ignores I/O errors
	if _, err := xos.Stat(dir); err != nil {
		return nil, nil
	}
	var out []string
	l, _ := xos.ReadDir(dir)
	for _, n := range l {
		if ok, _ := path.Match(file, n.Name()); ok {
			out = append(out, path.Join(dir, n.Name()))
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := xos.Stat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	err = walk(root, fs.FileInfoToDirEntry(info), fn)
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			return nil
		}
		return err
	}
	l, err := xos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			return err
		}
	}
	for _, e := range l {
		if err := walk(path.Join(p, e.Name()), e, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}

// Package filepath stands for path/filepath: what touches the file system goes to
// the simulated disk for paths on it.
package filepath

import (
	"io/fs"
	"path/filepath"
	"strings"

	os "github.com/leonelquinteros/gotext/vsimrt/vos"
)

func Abs(p string) (string, error) {
	if IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	if err != nil {
		return "", err
	}
	return Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if !os.Simulated(p) {
		return filepath.EvalSymlinks(p)
	}
	if _, err := os.Lstat(p); err != nil {
		return "", err
	}
	return Clean(p), nil
}

// Glob supports patterns in the last element only on the simulated disk.
func Glob(pattern string) ([]string, error) {
	if !os.Simulated(pattern) {
		return filepath.Glob(pattern)
	}
	dir, file := Split(pattern)
	es, err := os.ReadDir(Clean(dir))
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range es {
		ok, err := Match(file, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, Join(dir, e.Name()))
		}
	}
	return out, nil
}

// Walk works like filepath.Walk: entries in lexical order, one Lstat each.
func Walk(root string, fn WalkFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	es, err := os.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range es {
		name := Join(path, e.Name())
		info, err := os.Lstat(name)
		if err != nil {
			if err := fn(name, info, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(name, info, fn); err != nil {
			if !info.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

// WalkDir works like filepath.WalkDir.
func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := os.ReadDir(path)
	if err != nil {
		if err = fn(path, d, err); err != nil {
			if err == SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(strings.TrimSuffix(path, "/")+"/"+e.Name(), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

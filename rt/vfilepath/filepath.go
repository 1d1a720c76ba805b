// Package vfilepath stands in for path/filepath: the functions that look at
// the file system use the in-memory one (the lexical ones are aliases, see zz_alias.go).
package vfilepath

import (
	"io/fs"
	"path/filepath"

	"github.com/browles/drip/zzv/rt/vos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join("/cwd", p), nil
}

func EvalSymlinks(p string) (string, error) {
	if _, err := vos.Lstat(p); err != nil {
		return "", err
	}
	return filepath.Clean(p), nil
}

func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	}
	l, err := vos.ReadDir(filepath.Clean(dir))
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, e := range l {
		if ok, _ := filepath.Match(file, e.Name()); ok {
			out = append(out, filepath.Join(dir, e.Name()))
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	st, err := vos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(st), fn)
	}
	if err == fs.SkipDir || err == fs.SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == fs.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := vos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == fs.SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == fs.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if d == nil {
			return fn(p, nil, err)
		}
		i, _ := d.Info()
		return fn(p, i, err)
	})
}

// Package fakefilepath stands in for path/filepath.
package fakefilepath

import (
	"io/fs"
	"path/filepath"
	"strings"

	"github.com/HannesKimara/cddlc/zzverif/fakeos"
)

const (
	Separator     = '/'
	ListSeparator = ':'
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc = filepath.WalkFunc

func Join(e ...string) string         { return filepath.Join(e...) }
func Base(p string) string            { return filepath.Base(p) }
func Dir(p string) string             { return filepath.Dir(p) }
func Ext(p string) string             { return filepath.Ext(p) }
func Clean(p string) string           { return filepath.Clean(p) }
func Split(p string) (string, string) { return filepath.Split(p) }
func SplitList(p string) []string     { return filepath.SplitList(p) }
func Rel(a, b string) (string, error) { return filepath.Rel(a, b) }
func Match(p, n string) (bool, error) { return filepath.Match(p, n) }
func IsAbs(p string) bool             { return filepath.IsAbs(p) }
func IsLocal(p string) bool           { return filepath.IsLocal(p) }
func ToSlash(p string) string         { return p }
func FromSlash(p string) string       { return p }
func VolumeName(p string) string      { return "" }
func EvalSymlinks(p string) (string, error) {
	_, err := fakeos.Lstat(p)
	return filepath.Clean(p), err
}

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := fakeos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

// Glob finds the files matching a pattern; like the real one it ignores failures
// to read a directory.
func Glob(pattern string) ([]string, error) {
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	if !strings.ContainsAny(pattern, `*?[\`) {
		if _, err := fakeos.Lstat(pattern); err != nil {
			return nil, nil
		}
		return []string{pattern}, nil
	}
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	if strings.ContainsAny(dir, `*?[\`) {
		if dir == pattern {
			return nil, filepath.ErrBadPattern
		}
		m, err := Glob(dir)
		if err != nil {
			return nil, err
		}
		dirs = m
	}
	var out []string
	for _, d := range dirs {
		es, err := fakeos.ReadDir(d)
		if err != nil {
			continue
		}
		for _, e := range es {
			if ok, err := filepath.Match(file, e.Name()); err != nil {
				return out, err
			} else if ok {
				out = append(out, filepath.Join(d, e.Name()))
			}
		}
	}
	return out, nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := fakeos.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}

func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	es, err := fakeos.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range es {
		if err := walkDir(filepath.Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn WalkFunc) error {
	return WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		var i fs.FileInfo
		if d != nil {
			i, _ = d.Info()
		}
		return fn(p, i, err)
	})
}

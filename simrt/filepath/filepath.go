// Package filepath replaces path/filepath under simulation (walks go to the simulated file system).
package filepath

import (
	"io/fs"
	"path"
	"path/filepath"
	"sort"

	"verif.local/simrt/os"
)

const (
	Separator     = filepath.Separator
	ListSeparator = filepath.ListSeparator
)

var (
	ErrBadPattern = filepath.ErrBadPattern
	SkipDir       = fs.SkipDir
	SkipAll       = fs.SkipAll
)

type WalkFunc = filepath.WalkFunc

func Join(e ...string) string         { return filepath.Join(e...) }
func Clean(p string) string           { return filepath.Clean(p) }
func Base(p string) string            { return filepath.Base(p) }
func Dir(p string) string             { return filepath.Dir(p) }
func Ext(p string) string             { return filepath.Ext(p) }
func IsAbs(p string) bool             { return filepath.IsAbs(p) }
func IsLocal(p string) bool           { return filepath.IsLocal(p) }
func Split(p string) (string, string) { return filepath.Split(p) }
func SplitList(p string) []string     { return filepath.SplitList(p) }
func Rel(a, b string) (string, error) { return filepath.Rel(a, b) }
func Match(p, n string) (bool, error) { return filepath.Match(p, n) }
func ToSlash(p string) string         { return p }
func FromSlash(p string) string       { return p }
func VolumeName(p string) string      { return "" }
func EvalSymlinks(p string) (string, error) {
	if _, err := os.Stat(p); err != nil {
		return "", err
	}
	return Clean(p), nil
}
func Abs(p string) (string, error) {
	if path.IsAbs(p) {
		return Clean(p), nil
	}
	wd, err := os.Getwd()
	return Join(wd, p), err
}
func Glob(pattern string) ([]string, error) {
	if _, err := Match(pattern, ""); err != nil {
		return nil, err
	}
	dir, file := Split(pattern)
	dir = Clean(dir)
	var dirs []string
	if hasMeta(dir) {
		var err error
		if dirs, err = Glob(dir); err != nil {
			return nil, err
		}
	} else {
		dirs = []string{dir}
	}
	var out []string
	for _, d := range dirs {
		if !hasMeta(file) {
			if _, err := os.Lstat(Join(d, file)); err == nil {
				out = append(out, Join(d, file))
			}
			continue
		}
		l, err := os.ReadDir(d)
		if err != nil {
			continue
		}
		var m []string
		for _, e := range l {
			if ok, _ := Match(file, e.Name()); ok {
				m = append(m, Join(d, e.Name()))
			}
		}
		sort.Strings(m)
		out = append(out, m...)
	}
	return out, nil
}
func hasMeta(p string) bool {
	for _, c := range p {
		if c == '*' || c == '?' || c == '[' || c == '\\' {
			return true
		}
	}
	return false
}

func Walk(root string, fn WalkFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, i, fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walk(p string, i fs.FileInfo, fn WalkFunc) error {
	if !i.IsDir() {
		return fn(p, i, nil)
	}
	l, err := os.ReadDir(p)
	err1 := fn(p, i, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, e := range l {
		q := Join(p, e.Name())
		fi, err := os.Lstat(q)
		if err != nil {
			if err := fn(q, fi, err); err != nil && err != SkipDir {
				return err
			}
			continue
		}
		if err := walk(q, fi, fn); err != nil {
			if !fi.IsDir() || err != SkipDir {
				return err
			}
		}
	}
	return nil
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	i, err := os.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(i), fn)
	}
	if err == SkipDir || err == SkipAll {
		return nil
	}
	return err
}
func walkDir(p string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(p, d, nil); err != nil || !d.IsDir() {
		if err == SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	l, err := os.ReadDir(p)
	if err != nil {
		if err = fn(p, d, err); err != nil {
			if err == SkipDir {
				err = nil
			}
			return err
		}
	}
	for _, e := range l {
		if err := walkDir(Join(p, e.Name()), e, fn); err != nil {
			if err == SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

package os

import (
	"io/fs"
	real "os"
	"path/filepath"

	"github.com/ti-mo/comfo/zsim/rt"
)

// A disk in memory, one per run; it survives kills of the process. A write is visible in two steps.
var disk = struct {
	w     *rt.World
	files map[string][]byte
}{}

func files() map[string][]byte {
	if disk.w != rt.W {
		disk.w, disk.files = rt.W, map[string][]byte{}
	}
	return disk.files
}

func notExist(op, name string) error { return &fs.PathError{Op: op, Path: name, Err: fs.ErrNotExist} }

func ReadFile(name string) ([]byte, error) {
	rt.Yield(0)
	b, ok := files()[filepath.Clean(name)]
	if !ok {
		return nil, notExist("open", name)
	}
	return append([]byte{}, b...), nil
}

func WriteFile(name string, data []byte, perm real.FileMode) error {
	rt.Yield(0)
	files()[filepath.Clean(name)] = nil
	rt.Yield(0)
	files()[filepath.Clean(name)] = append([]byte{}, data...)
	return nil
}

func Remove(name string) error {
	rt.Yield(0)
	if _, ok := files()[filepath.Clean(name)]; !ok {
		return notExist("remove", name)
	}
	delete(files(), filepath.Clean(name))
	return nil
}

func Rename(a, b string) error {
	rt.Yield(0)
	d, ok := files()[filepath.Clean(a)]
	if !ok {
		return notExist("rename", a)
	}
	delete(files(), filepath.Clean(a))
	files()[filepath.Clean(b)] = d
	return nil
}

func Mkdir(string, real.FileMode) error    { return nil }
func MkdirAll(string, real.FileMode) error { return nil }

// Package simos replaces the parts of package os that depend on the machine.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"strings"
	"time"

	"vsim/rt"
)

var devnull = func() *os.File {
	f, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		return os.Stderr
	}
	return f
}()

var Stdout, Stderr, Stdin = devnull, devnull, devnull
var Args = []string{"simulated"}

func node() *rt.Node {
	if rt.S == nil {
		return &rt.Node{Name: "host", Vars: map[string]string{}}
	}
	return rt.S.CurNode()
}

func Getpid() int {
	n := node()
	if n.Vars["pid"] == "1" { // the only process of its container
		return 1
	}
	return 1000 + n.EpochNo
}
func Getppid() int { return 1 }
func Hostname() (string, error) {
	n := node()
	if n.Vars["hostname_error"] != "" {
		return "", errors.New("hostname unavailable")
	}
	if h := n.Vars["hostname"]; h != "" {
		return h, nil
	}
	return n.Name, nil
}
func Getenv(k string) string { return node().Vars[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := node().Vars[k]
	return v, ok
}
func Setenv(k, v string) error { node().Vars[k] = v; return nil }

// Exit ends the process that the current task belongs to.
func Exit(code int) {
	s := rt.S
	if s == nil || s.Aborting() {
		return
	}
	s.Event("exit %s %d", s.CurNode().Name, code)
	s.CurNode().Vars["exit_code"] = string(rune('0' + code%10))
	s.Crash(s.CurNode())
	rt.Park("exited")
}

type ent struct{ name string }

func (e ent) Name() string               { return e.name }
func (e ent) Size() int64                { return 64 }
func (e ent) Mode() fs.FileMode          { return fs.ModeSymlink }
func (e ent) ModTime() time.Time         { return time.Unix(0, 0) }
func (e ent) IsDir() bool                { return false }
func (e ent) Sys() any                   { return nil }
func (e ent) Type() fs.FileMode          { return fs.ModeSymlink }
func (e ent) Info() (fs.FileInfo, error) { return e, nil }

func isFd(p string) bool {
	p = strings.TrimRight(p, "/")
	return p == "/proc/self/fd" || p == "/dev/fd" || p == fmt.Sprintf("/proc/%d/fd", Getpid())
}

func fds() ([]ent, error) {
	n := node()
	if n.Fds < 0 {
		return nil, &fs.PathError{Op: "open", Path: "/proc/self/fd", Err: errors.New("too many open files")}
	}
	r := make([]ent, n.Fds)
	for i := range r {
		r[i] = ent{string(rune('0' + i%10))}
	}
	return r, nil
}

// ReadDirInfo is ioutil.ReadDir.
func ReadDirInfo(p string) ([]fs.FileInfo, error) {
	if !isFd(p) {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	e, err := fds()
	if err != nil {
		return nil, err
	}
	r := make([]fs.FileInfo, len(e))
	for i := range e {
		r[i] = e[i]
	}
	return r, nil
}

// ReadDir is os.ReadDir.
func ReadDir(p string) ([]fs.DirEntry, error) {
	if !isFd(p) {
		return nil, &fs.PathError{Op: "open", Path: p, Err: fs.ErrNotExist}
	}
	e, err := fds()
	if err != nil {
		return nil, err
	}
	r := make([]fs.DirEntry, len(e))
	for i := range e {
		r[i] = e[i]
	}
	return r, nil
}

// File is an open directory of descriptors, or a real file.
type File struct {
	*os.File
	ents []ent
	sim  bool
}

func Open(p string) (*File, error) {
	if !isFd(p) {
		f, err := os.Open(p)
		return &File{File: f}, err
	}
	e, err := fds()
	if err != nil {
		return nil, err
	}
	return &File{ents: e, sim: true}, nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.sim {
		return nil
	}
	return f.File.Close()
}

func take[T any](f *File, n int, conv func(ent) T) ([]T, error) {
	e := f.ents
	if n > 0 {
		if len(e) == 0 {
			return nil, io.EOF
		}
		if n < len(e) {
			e = e[:n]
		}
	}
	f.ents = f.ents[len(e):]
	r := make([]T, len(e))
	for i := range e {
		r[i] = conv(e[i])
	}
	return r, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	if !f.sim {
		return f.File.Readdirnames(n)
	}
	return take(f, n, func(e ent) string { return e.name })
}

func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	if !f.sim {
		return f.File.Readdir(n)
	}
	return take(f, n, func(e ent) fs.FileInfo { return e })
}

func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if !f.sim {
		return f.File.ReadDir(n)
	}
	return take(f, n, func(e ent) fs.DirEntry { return e })
}

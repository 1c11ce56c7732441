//go:build go1.23

// Package vnetos stands in for package os in a program whose network is vnet:
// the sockets of that network are files.
package vnetos

import (
	"io/fs"
	"os"
	"time"

	"github.com/go-air/gini/vnet"
)

type info struct {
	name string
	mode os.FileMode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return 0 }
func (i info) Mode() os.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func no(op, p string) error { return &os.PathError{Op: op, Path: p, Err: fs.ErrNotExist} }

func Stat(p string) (os.FileInfo, error) {
	m, ok := vnet.Mode(p)
	if !ok {
		return nil, no("stat", p)
	}
	return info{p, m}, nil
}

func Lstat(p string) (os.FileInfo, error) { return Stat(p) }

func Remove(p string) error {
	if !vnet.Unlink(p) {
		return no("remove", p)
	}
	return nil
}

func RemoveAll(p string) error {
	vnet.Unlink(p)
	return nil
}

// what changes files and has no place in this network
func never(what string) error { panic("vnetos: " + what) }

type File = os.File

func Open(n string) (*os.File, error)                           { return os.Open(n) }
func NewFile(fd uintptr, n string) *os.File                     { return os.NewFile(fd, n) }
func OpenFile(n string, f int, p os.FileMode) (*os.File, error) { return os.OpenFile(n, f, p) }
func Create(n string) (*os.File, error)                         { return nil, never("Create") }
func CreateTemp(d, p string) (*os.File, error)                  { return os.CreateTemp(d, p) }
func MkdirTemp(d, p string) (string, error)                     { return os.MkdirTemp(d, p) }
func Mkdir(n string, p os.FileMode) error                       { return never("Mkdir") }
func MkdirAll(n string, p os.FileMode) error                    { return never("MkdirAll") }
func Rename(a, b string) error                                  { return never("Rename") }
func Chmod(n string, m os.FileMode) error {
	if _, ok := vnet.Mode(n); !ok {
		return no("chmod", n)
	}
	return nil
}
func WriteFile(n string, b []byte, p os.FileMode) error { return never("WriteFile") }

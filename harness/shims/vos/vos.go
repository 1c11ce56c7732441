// Package vos stands in for package os in instrumented builds: it counts the
// operations which change the file system and makes them fail, or stop taking
// effect for good (which is what a crash at that point leaves behind).
package vos

import (
	"errors"
	"io"
	"os"
	"sync"
	"time"
)

// What happens at operation At (counted from 1; 0: nothing ever happens).
const (
	None  = iota
	Fail  // that operation alone fails and changes nothing
	Short // that operation fails; a write puts down half of the data
	Crash // that operation and all later ones fail and change nothing
	Torn  // as Crash, but a write puts down half of the data
)

var (
	mu   sync.Mutex
	mode int
	at   int
	ops  int
	// Log names the operations since Plan.
	Log []string
)

// Chunk is how much Copy writes at once.
var Chunk = 8

var errPlanned = errors.New("planned failure")

// Plan starts counting.
func Plan(m, n int) {
	mu.Lock()
	mode, at, ops, Log = m, n, 0, nil
	mu.Unlock()
}

// Done ends the plan, and tells how many operations there were.
func Done() int {
	mu.Lock()
	defer mu.Unlock()
	mode, at = None, 0
	return ops
}

// hit counts an operation; fail: it has no effect, half: half of its data has.
func hit(what string) (fail, half bool) {
	mu.Lock()
	defer mu.Unlock()
	ops++
	if at == 0 {
		return
	}
	Log = append(Log, what)
	switch mode {
	case Fail:
		return ops == at, false
	case Short:
		return ops == at, ops == at
	case Crash:
		return ops >= at, false
	case Torn:
		return ops >= at, ops == at
	}
	return
}

func op(what string, f func() error) error {
	if fail, _ := hit(what); fail {
		return &os.PathError{Op: what, Path: "", Err: errPlanned}
	}
	return f()
}

// File is an open file.
type File struct{ *os.File }

func wrap(f *os.File, e error) (*File, error) {
	if e != nil {
		return nil, e
	}
	return &File{f}, nil
}

func Open(n string) (*File, error) { return wrap(os.Open(n)) }

func NewFile(fd uintptr, n string) *File { return &File{os.NewFile(fd, n)} }

func OpenFile(n string, fl int, p os.FileMode) (f *File, e error) {
	if fl&(os.O_CREATE|os.O_TRUNC) == 0 {
		return wrap(os.OpenFile(n, fl, p))
	}
	e = op("create "+n, func() (e error) { f, e = wrap(os.OpenFile(n, fl, p)); return })
	return
}
func Create(n string) (*File, error) {
	return OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}
func CreateTemp(d, p string) (f *File, e error) {
	e = op("create temp", func() (e error) { f, e = wrap(os.CreateTemp(d, p)); return })
	return
}
func MkdirTemp(d, p string) (s string, e error) {
	e = op("mkdir temp", func() (e error) { s, e = os.MkdirTemp(d, p); return })
	return
}
func Mkdir(n string, p os.FileMode) error {
	return op("mkdir "+n, func() error { return os.Mkdir(n, p) })
}
func MkdirAll(n string, p os.FileMode) error {
	return op("mkdir "+n, func() error { return os.MkdirAll(n, p) })
}
func Symlink(a, b string) error {
	return op("symlink "+b, func() error { return os.Symlink(a, b) })
}
func Link(a, b string) error { return op("link "+b, func() error { return os.Link(a, b) }) }
func Rename(a, b string) error {
	return op("rename "+a, func() error { return os.Rename(a, b) })
}
func Remove(n string) error { return op("remove "+n, func() error { return os.Remove(n) }) }
func RemoveAll(n string) error {
	return op("remove "+n, func() error { return os.RemoveAll(n) })
}
func Truncate(n string, s int64) error {
	return op("truncate "+n, func() error { return os.Truncate(n, s) })
}
func Chmod(n string, m os.FileMode) error {
	return op("chmod "+n, func() error { return os.Chmod(n, m) })
}
func Chtimes(n string, a, m time.Time) error {
	return op("chtimes "+n, func() error { return os.Chtimes(n, a, m) })
}
func WriteFile(n string, b []byte, p os.FileMode) error {
	f, e := OpenFile(n, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, p)
	if e != nil {
		return e
	}
	_, e = f.Write(b)
	if e1 := f.Close(); e1 != nil && e == nil {
		e = e1
	}
	return e
}

func (f *File) Write(b []byte) (int, error) {
	fail, half := hit("write " + f.Name())
	if !fail {
		return f.File.Write(b)
	}
	n := 0
	if half {
		n, _ = f.File.Write(b[:len(b)/2])
	}
	return n, &os.PathError{Op: "write", Path: f.Name(), Err: errPlanned}
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, o int64) (n int, e error) {
	e = op("write "+f.Name(), func() (e error) { n, e = f.File.WriteAt(b, o); return })
	return
}
func (f *File) Truncate(s int64) error {
	return op("truncate "+f.Name(), func() error { return f.File.Truncate(s) })
}
func (f *File) Sync() error { return nil }

// ReadFrom writes in small pieces, so that a copy can be cut off anywhere.
func (f *File) ReadFrom(r io.Reader) (n int64, e error) {
	buf := make([]byte, Chunk)
	for {
		k, re := io.ReadFull(r, buf)
		if k > 0 {
			w, we := f.Write(buf[:k])
			n += int64(w)
			if we != nil {
				return n, we
			}
		}
		if re == io.EOF || re == io.ErrUnexpectedEOF {
			return n, nil
		}
		if re != nil {
			return n, re
		}
	}
}

// WriteTo hands the data to w in the usual way.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f.File})
}

//go:build go1.23

// Package vnet stands in for package net under the controlled scheduler: a
// network in memory on which reads can be split at will and connections can
// break at any byte.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"
	"unsafe"

	"github.com/go-air/gini/vsched"
)

type (
	Addr     = net.Addr
	Conn     = net.Conn
	Listener = net.Listener
	Error    = net.Error
	OpError  = net.OpError
	TCPConn  = net.TCPConn
	UnixConn = net.UnixConn
)

var ErrClosed = net.ErrClosed

var (
	errReset   = errors.New("connection reset by peer")
	errPipe    = errors.New("broken pipe")
	errRefused = errors.New("connection refused")
	errInUse   = errors.New("address already in use")
)

// State of the network of one run.
var (
	ls []*lis // a map would be seen by the race detector
	// the files: sockets, and what PutFile put there
	nodes []*node
	// Chunk bounds what one Read returns (0: all there is).
	Chunk int
	// NextUp and NextDown, if not negative, break the next connection dialled
	// after so many bytes from the client or the server.
	NextUp, NextDown = -1, -1
	// Opened lists the dialled connections, in order.
	Opened []*Link
)

// Reset makes a new network.
func Reset() {
	ls = nil
	nodes = nil
	Chunk = 0
	Opened = nil
	NextUp, NextDown = -1, -1
}

type addr struct{ n, a string }

func (a addr) Network() string { return a.n }
func (a addr) String() string  { return a.a }

// seg is what one Write wrote, or the end of the stream.
type seg struct {
	b  []byte
	e  error
	at vsched.Mark
}

// pipe is one direction of a connection.  Reading at the head and writing at
// the tail concern each other only in that data must be there: a Read returns
// (part of) what one Write wrote.
type pipe struct {
	head, tail byte
	segs       []seg
	wc         bool // closed by the writer
	rc         bool // closed by the reader
	dead       bool
	cut        int // bytes that still pass before the connection breaks; -1: no limit
	sent       int
	q          vsched.WaitList
}

func (p *pipe) put(b []byte, e error) {
	p.segs = append(p.segs, seg{append([]byte(nil), b...), e, vsched.Stamp()})
	vsched.Release(unsafe.Pointer(p))
	p.q.WakeAll()
}

// Link is a connection, seen from outside.
type Link struct {
	Up, Down *pipe // client to server, server to client
}

// Sent tells how many bytes were written by the client and by the server.
func (l *Link) Sent() (up, down int) { return l.Up.sent, l.Down.sent }

// CutUp breaks the connection after n more bytes from the client, CutDown
// after n more bytes from the server.
func (l *Link) CutUp(n int)   { l.Up.cut = n }
func (l *Link) CutDown(n int) { l.Down.cut = n }

func (l *Link) kill() {
	for _, p := range []*pipe{l.Up, l.Down} {
		p.dead = true
		p.put(nil, errReset)
	}
}

// Break breaks the connection.
func (l *Link) Break() {
	vsched.Point(&l.Up.head, &l.Up.tail, &l.Down.head, &l.Down.tail)
	l.kill()
}

type conn struct {
	l        *Link
	in, out  *pipe
	loc, rem addr
	closed   bool
}

func (c *conn) Read(b []byte) (int, error) {
	vsched.Patient()
	if len(b) == 0 {
		return 0, nil
	}
	p := c.in
	for len(p.segs) == 0 && !p.rc {
		if vsched.Killed() {
			return 0, io.EOF
		}
		p.q.Wait("a read from " + c.rem.a)
	}
	vsched.Point(&p.head)
	if p.rc {
		return 0, ErrClosed
	}
	g := &p.segs[0]
	vsched.After(g.at)
	vsched.Acquire(unsafe.Pointer(p))
	if g.e != nil {
		return 0, g.e
	}
	n := copy(b, g.b)
	if Chunk > 0 && n > Chunk {
		n = Chunk
	}
	if n == len(g.b) {
		p.segs = p.segs[1:]
	} else {
		g.b = g.b[n:]
	}
	return n, nil
}

func (c *conn) Write(b []byte) (int, error) {
	vsched.Patient()
	if vsched.Killed() {
		return 0, errPipe
	}
	p := c.out
	if p.cut >= 0 {
		vsched.Point(&p.tail, &c.in.tail)
	} else {
		vsched.Point(&p.tail)
	}
	switch {
	case p.wc:
		return 0, ErrClosed
	case p.rc:
		return 0, errPipe
	case p.dead:
		return 0, errReset
	case len(b) == 0:
		return 0, nil
	}
	n := len(b)
	if p.cut >= 0 && n >= p.cut {
		n = p.cut
	}
	if n > 0 {
		p.put(b[:n], nil)
	}
	p.sent += n
	if p.cut >= 0 {
		p.cut -= n
		if p.cut == 0 {
			c.l.kill()
			if n < len(b) {
				return n, errReset
			}
		}
	}
	return n, nil
}

func (c *conn) Close() error {
	if vsched.Killed() {
		return nil
	}
	vsched.Point(&c.in.head, &c.in.tail, &c.out.head, &c.out.tail)
	if c.closed {
		return ErrClosed
	}
	c.closed = true
	c.out.wc = true
	c.out.put(nil, io.EOF)
	c.in.rc = true
	c.in.q.WakeAll()
	return nil
}

func (c *conn) LocalAddr() Addr                    { return c.loc }
func (c *conn) RemoteAddr() Addr                   { return c.rem }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

type lis struct {
	a      addr
	q      []*conn
	closed bool
	w      vsched.WaitList
}

// find returns the last listener at an address.
func find(network, address string) *lis {
	for i := len(ls) - 1; i >= 0; i-- {
		if ls[i].a.n == network && ls[i].a.a == address {
			return ls[i]
		}
	}
	return nil
}

// node is a file: a socket if l is not nil.
type node struct {
	path string
	l    *lis
}

var fsKey byte // where the files are, for the scheduler

func file(path string) *node {
	vsched.Point(&fsKey)
	for _, x := range nodes {
		if x.path == path {
			return x
		}
	}
	return nil
}

// PutFile puts a file which is no socket at a path.
func PutFile(path string) { nodes = append(nodes, &node{path: path}) }

// Mode gives the mode of the file at a path.
func Mode(path string) (os.FileMode, bool) {
	x := file(path)
	switch {
	case x == nil:
		return 0, false
	case x.l == nil:
		return 0o644, true
	}
	return os.ModeSocket | 0o755, true
}

// Unlink removes the file at a path and tells if there was one.
func Unlink(path string) bool {
	vsched.Point(&fsKey)
	for i, x := range nodes {
		if x.path == path {
			nodes = append(nodes[:i], nodes[i+1:]...)
			return true
		}
	}
	return false
}

func isUnix(network string) bool { return network == "unix" }

func Listen(network, address string) (Listener, error) {
	l := &lis{a: addr{network, address}}
	if isUnix(network) {
		if file(address) != nil {
			return nil, errInUse
		}
		nodes = append(nodes, &node{address, l})
		return l, nil
	}
	if l := find(network, address); l != nil && !l.closed {
		return nil, errInUse
	}
	ls = append(ls, l)
	return l, nil
}

func (l *lis) Accept() (Conn, error) {
	for {
		if vsched.Killed() {
			return nil, ErrClosed
		}
		vsched.Point(l)
		if l.closed {
			return nil, ErrClosed
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			vsched.Acquire(unsafe.Pointer(l))
			return c, nil
		}
		l.w.Wait("Accept")
	}
}

func (l *lis) Close() error {
	if vsched.Killed() {
		return nil
	}
	if isUnix(l.a.n) {
		vsched.Point(l, &fsKey)
	} else {
		vsched.Point(l)
	}
	if l.closed {
		return ErrClosed
	}
	if isUnix(l.a.n) {
		// as package net does: whatever is there, once
		for i, x := range nodes {
			if x.path == l.a.a {
				nodes = append(nodes[:i], nodes[i+1:]...)
				break
			}
		}
	}
	l.closed = true
	l.w.WakeAll()
	return nil
}

func (l *lis) Addr() Addr { return l.a }

func Dial(network, address string) (Conn, error) {
	var l *lis
	if !isUnix(network) {
		l = find(network, address)
	} else if x := file(address); x != nil {
		l = x.l
	}
	if l == nil {
		return nil, errRefused
	}
	vsched.Point(l)
	if l.closed {
		return nil, errRefused
	}
	k := &Link{Up: &pipe{cut: NextUp}, Down: &pipe{cut: NextDown}}
	NextUp, NextDown = -1, -1
	n := len(Opened)
	Opened = append(Opened, k)
	cl := addr{network, fmt.Sprintf("client %d", n)}
	sv := addr{network, fmt.Sprintf("server of client %d", n)}
	l.q = append(l.q, &conn{l: k, in: k.Up, out: k.Down, loc: sv, rem: cl})
	vsched.Release(unsafe.Pointer(l))
	l.w.WakeAll()
	return &conn{l: k, in: k.Down, out: k.Up, loc: cl, rem: sv}, nil
}

func DialTimeout(network, address string, d time.Duration) (Conn, error) {
	return Dial(network, address)
}

func JoinHostPort(h, p string) string                 { return net.JoinHostPort(h, p) }
func SplitHostPort(s string) (h, p string, err error) { return net.SplitHostPort(s) }

//go:build sched

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/vnet"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// enc is the wire encoding, as documented.
func enc(v uint32) []byte {
	var b []byte
	for v >= 128 {
		b = append(b, byte(v)|128)
		v >>= 7
	}
	return append(b, byte(v))
}

// dec decodes one value; n is the number of bytes, 0 if b is too short, -1 if
// this is no encoding of an uint32.
func dec(b []byte) (v uint32, n int) {
	x := uint64(0)
	for i := 0; i < len(b); i++ {
		x |= uint64(b[i]&127) << (7 * uint(i))
		if i == 4 && b[i] > 15 {
			return 0, -1
		}
		if b[i] < 128 {
			return uint32(x), i + 1
		}
	}
	return 0, 0
}

// wire is a transport: what can be read, in pieces; what was written.
type wire struct {
	in     []byte
	chunk  int // at most this much at once
	zeros  int // zero-length reads and writes before each piece
	z      int
	inErr  error
	withN  bool // the error comes with the last piece
	out    []byte
	wchunk int // at most this much at once
	wlimit int // bytes after which writes fail; -1
	werr   error
}

var errBroken = errors.New("broken transport")

func (w *wire) Read(b []byte) (int, error) {
	if w.z < w.zeros {
		w.z++
		return 0, nil
	}
	w.z = 0
	n := len(w.in)
	if n == 0 {
		return 0, w.inErr
	}
	if w.chunk > 0 && n > w.chunk {
		n = w.chunk
	}
	n = copy(b, w.in[:n])
	w.in = w.in[n:]
	if len(w.in) == 0 && w.withN {
		return n, w.inErr
	}
	return n, nil
}

func (w *wire) Write(b []byte) (int, error) {
	if w.z < w.zeros {
		w.z++
		return 0, nil
	}
	w.z = 0
	n := len(b)
	if w.wchunk > 0 && n > w.wchunk {
		n = w.wchunk
	}
	if w.wlimit >= 0 {
		if n > w.wlimit {
			n = w.wlimit
		}
		w.wlimit -= n
		w.out = append(w.out, b[:n]...)
		if n < len(b) && w.wlimit == 0 {
			return n, errBroken
		}
		return n, nil
	}
	w.out = append(w.out, b[:n]...)
	return n, nil
}

func newWire() *wire { return &wire{inErr: io.EOF, wlimit: -1} }

// boundary values: around every change of length, and the ends of the ranges
// of literals and of operations
func boundary() []uint32 {
	var vs []uint32
	for _, s := range []uint{0, 7, 14, 21, 28} {
		for d := -1; d <= 1; d++ {
			v := int64(1)<<s + int64(d)
			if v >= 0 {
				vs = append(vs, uint32(v))
			}
		}
	}
	vs = append(vs, 0x7fffffff, 0x80000000, 0xfffffeff, 0xffffff00, 0xffffff01, 0xfffffffe, 0xffffffff)
	return vs
}

func c22() *eng.Prop {
	bv := boundary()
	values := &eng.Part{
		Name: "values",
		Desc: "every triple of boundary values written and read back, pieces of 1 to 5 bytes and whole, with and without empty reads and writes in between; the encoding is the documented one",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := int32(len(bv))
			for a := int32(0); a < n; a++ {
				for b := int32(0); b < n; b++ {
					if !yield([]int32{a, b}) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			for k := range bv {
				vs := []uint32{bv[c[0]], bv[c[1]], bv[k]}
				var want []byte
				for _, v := range vs {
					want = append(want, enc(v)...)
				}
				for chunk := 0; chunk <= 5; chunk++ {
					for zeros := 0; zeros < 3; zeros++ {
						w := newWire()
						w.chunk, w.wchunk, w.zeros = chunk, chunk, zeros
						x := crisp.NewVIO(w)
						for _, v := range vs {
							if e := x.Write(v); e != nil {
								return fmt.Errorf("write %d: %v", v, e)
							}
						}
						if e := x.Flush(); e != nil {
							return fmt.Errorf("flush: %v", e)
						}
						if !bytes.Equal(w.out, want) {
							return fmt.Errorf("%v written as %x, should be %x", vs, w.out, want)
						}
						w.in, w.out = w.out, nil
						for _, v := range vs {
							u, e := x.Read()
							if e != nil || u != v {
								return fmt.Errorf("%v: %d read as %d, %v", vs, v, u, e)
							}
						}
						if u, e := x.Read(); e == nil {
							return fmt.Errorf("%v: %d read after the end", vs, u)
						}
						cov.Trans += 8
						cov.States++
						cov.Traces++
					}
				}
			}
			cov.Nontriv++
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprint(bv[c[0]], bv[c[1]]) },
	}
	bs := []byte{0, 1, 0x0f, 0x10, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0xff}
	bytesPart := &eng.Part{
		Name: "bytes",
		Desc: "every byte string over 10 boundary bytes up to a length, decoded by a reader: same values as the reference decoder, or an error where there is no value",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := t.Pick(6, 7)
			var c []int32
			var rec func(d int) bool
			rec = func(d int) bool {
				if d == 0 {
					return yield(append([]int32(nil), c...))
				}
				for i := range bs {
					c = append(c, int32(i))
					if !rec(d - 1) {
						return false
					}
					c = c[:len(c)-1]
				}
				return true
			}
			for k := 0; k <= n; k++ {
				if !rec(k) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			var in []byte
			for _, i := range c {
				in = append(in, bs[i])
			}
			for _, chunk := range []int{0, 1} {
				for _, withN := range []bool{false, true} {
					w := newWire()
					w.in, w.chunk, w.withN = append([]byte(nil), in...), chunk, withN
					x := crisp.NewVIO(w)
					rest := in
					for {
						v, n := dec(rest)
						u, e := x.Read()
						cov.Trans++
						if n > 0 {
							if e != nil || u != v {
								return fmt.Errorf("%x: %d read as %d, %v", in, v, u, e)
							}
							rest = rest[n:]
							continue
						}
						if e == nil {
							return fmt.Errorf("%x: %d read where there is no value", in, u)
						}
						if n < 0 && e != crisp.ErrVarUint {
							return fmt.Errorf("%x: error %v for something outside the range", in, e)
						}
						break
					}
				}
			}
			cov.Traces++
			cov.States++
			cov.Nontriv++
			return nil
		},
		Show: func(c []int32) string {
			var in []byte
			for _, i := range c {
				in = append(in, bs[i])
			}
			return fmt.Sprintf("%x", in)
		},
	}
	// operations of one endpoint: writes of values of each length, flush, a
	// value arrives, read
	opv := []uint32{3, 200, 70000, 0xffffffff}
	const (
		fl = 4
		rd = 5
		ar = 6 // .. 6+len(opv)-1: arrives
	)
	pre := []int{0, 1, 1018, 1019, 1020, 1021, 1022, 1023, 1024}
	mixed := &eng.Part{
		Name: "mixed",
		Desc: "one endpoint: every sequence of writes (values of 1, 2, 3 and 5 bytes), flushes, arrivals and reads up to a length, the buffers starting at every position near their ends; what is read is what arrived, what the peer gets is what was written",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			n := t.Pick(5, 6)
			var c []int32
			var rec func(d, avail int) bool
			rec = func(d, avail int) bool {
				if d == 0 {
					for p := range pre {
						for q := range pre {
							if len(c) == n && p != q && q != 0 && p != 0 {
								continue
							}
							if !yield(append([]int32{int32(p), int32(q)}, c...)) {
								return false
							}
						}
					}
					return true
				}
				for o := 0; o < ar+len(opv); o++ {
					a := avail
					if o == rd {
						if a == 0 {
							continue
						}
						a--
					}
					if o >= ar {
						a++
					}
					c = append(c, int32(o))
					if !rec(d-1, a) {
						return false
					}
					c = c[:len(c)-1]
				}
				return true
			}
			for k := 1; k <= n; k++ {
				if !rec(k, 0) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			w := newWire()
			x := crisp.NewVIO(w)
			var written, arrived, read []uint32
			wr := func(v uint32) error {
				written = append(written, v)
				return x.Write(v)
			}
			// bring the write side and the read side to their positions
			for i := 0; i < pre[c[0]]; i++ {
				if e := wr(uint32(i & 63)); e != nil {
					return e
				}
			}
			for i := 0; i < pre[c[1]]; i++ {
				w.in = append(w.in, byte(i&63))
				arrived = append(arrived, uint32(i&63))
			}
			rdOne := func() error {
				u, e := x.Read()
				if e != nil {
					return fmt.Errorf("read: %v (%d of %d values read)", e, len(read), len(arrived))
				}
				if u != arrived[len(read)] {
					return fmt.Errorf("value %d arrived as %d was read as %d", len(read), arrived[len(read)], u)
				}
				read = append(read, u)
				return nil
			}
			for i := 0; i < pre[c[1]]; i++ {
				if i == pre[c[1]]-1 && len(c)%2 == 0 {
					break // leave one unread
				}
				if e := rdOne(); e != nil {
					return e
				}
			}
			for _, o := range c[2:] {
				cov.Trans++
				switch {
				case o < fl:
					if e := wr(opv[o]); e != nil {
						return fmt.Errorf("write: %v", e)
					}
				case o == fl:
					if e := x.Flush(); e != nil {
						return fmt.Errorf("flush: %v", e)
					}
					var want []byte
					for _, v := range written {
						want = append(want, enc(v)...)
					}
					if !bytes.Equal(w.out, want) {
						return fmt.Errorf("after a flush the peer got %d bytes, %d were written (ends in %x, should be %x)", len(w.out), len(want), lastBytes(w.out), lastBytes(want))
					}
				case o == rd:
					if e := rdOne(); e != nil {
						return e
					}
				default:
					w.in = append(w.in, enc(opv[o-ar])...)
					arrived = append(arrived, opv[o-ar])
				}
			}
			if e := x.Flush(); e != nil {
				return fmt.Errorf("flush: %v", e)
			}
			for len(read) < len(arrived) {
				if e := rdOne(); e != nil {
					return e
				}
			}
			b := w.out
			for i, v := range written {
				u, n := dec(b)
				if n <= 0 || u != v {
					return fmt.Errorf("value %d written as %d reaches the peer as %d", i, v, u)
				}
				b = b[n:]
			}
			if len(b) > 0 {
				return fmt.Errorf("%d bytes more than written reach the peer", len(b))
			}
			cov.Traces++
			cov.States++
			cov.Nontriv++
			return nil
		},
		Show: func(c []int32) string {
			s := fmt.Sprintf("%d written and %d read before:", pre[c[0]], pre[c[1]])
			for _, o := range c[2:] {
				switch {
				case o < fl:
					s += fmt.Sprintf(" write(%d)", opv[o])
				case o == fl:
					s += " flush"
				case o == rd:
					s += " read"
				default:
					s += fmt.Sprintf(" arrives(%d)", opv[o-ar])
				}
			}
			return s
		},
	}
	faults := &eng.Part{
		Name: "faults",
		Desc: "writes that fail at every byte, with pieces of every size, and reads that end at every byte: the error is reported, and what was delivered before is right",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for n := int32(0); n < 40; n++ {
				for chunk := int32(0); chunk < 6; chunk++ {
					for _, size := range []int32{0, 1000, 1015, 1023, 1030, 2050} {
						if !yield([]int32{n, chunk, size}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			var vs []uint32
			for i := 0; i < int(c[2]); i++ {
				vs = append(vs, uint32(i%100))
			}
			vs = append(vs, bv...)
			var all []byte
			for _, v := range vs {
				all = append(all, enc(v)...)
			}
			lim := len(all) - int(c[0])
			if lim < 0 {
				return nil
			}
			w := newWire()
			w.wchunk, w.wlimit = int(c[1]), lim
			x := crisp.NewVIO(w)
			failed := false
			for i := 0; i <= len(vs) && !failed; i++ {
				var e error
				if i < len(vs) {
					e = x.Write(vs[i])
				} else {
					e = x.Flush()
				}
				failed = e != nil
			}
			cov.Trans += int64(len(vs))
			if !failed && lim < len(all) {
				return fmt.Errorf("writing %d bytes where only %d pass reports no error", len(all), lim)
			}
			if failed && lim >= len(all) {
				return fmt.Errorf("an error without a failure of the transport")
			}
			if !bytes.HasPrefix(all, w.out) {
				return fmt.Errorf("the peer got something else than what was written")
			}
			// once more: nothing may reach the peer twice
			if failed {
				w.wlimit = -1
				n := len(w.out)
				x.Flush()
				if len(w.out) > n && !bytes.HasPrefix(all, w.out) {
					return fmt.Errorf("after a failed flush another one sends bytes again")
				}
			}
			// reading what passed
			r := newWire()
			r.in, r.chunk, r.inErr = append([]byte(nil), all[:lim]...), int(c[1]), errBroken
			y := crisp.NewVIO(r)
			rest := all[:lim]
			for i := 0; ; i++ {
				v, n := dec(rest)
				u, e := y.Read()
				if n > 0 {
					if e != nil || u != v {
						return fmt.Errorf("value %d: %d read as %d, %v", i, v, u, e)
					}
					rest = rest[n:]
					continue
				}
				if e != errBroken {
					return fmt.Errorf("the transport broke; reading gives %d, %v", u, e)
				}
				break
			}
			cov.Traces += 2
			cov.States++
			cov.Nontriv++
			return nil
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("breaks %d bytes before the end, pieces of %d, %d values before", c[0], c[1], c[2])
		},
	}
	// the client and the server at both ends of a real session
	ends := &eng.Part{
		Name: "client",
		Desc: "a client against a scripted server: models of every boundary word and word count, failed assumptions of boundary literals, clauses and assumptions of boundary literals across buffer ends; pieces of 1 to 3 bytes and whole",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for k := int32(0); k < 3; k++ {
				for n := int32(0); n < 70; n++ {
					for chunk := int32(0); chunk < 4; chunk++ {
						if !yield([]int32{k, n, chunk}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			f := func() { clientEnds(int(c[0]), int(c[1]), int(c[2]), bv) }
			return exploreCrisp(fmt.Sprint(c), f, 100000, 20, cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%s, %d, pieces of %d", []string{"model", "failed", "clauses"}[c[0]], c[1], c[2])
		},
		Hang: 3 * time.Minute,
	}
	return &eng.Prop{
		ID:    "C22",
		Level: "implementation",
		Rule:  "the real reader and writer of the wire format on a scripted transport",
		Parts: []*eng.Part{values, bytesPart, mixed, faults, ends},
	}
}

func lastBytes(b []byte) []byte {
	if len(b) > 12 {
		return b[len(b)-12:]
	}
	return b
}

// clientEnds runs a client against a scripted server.
func clientEnds(kind, n, chunk int, bv []uint32) {
	vnet.Reset()
	vnet.Chunk = chunk
	l, e := vnet.Listen("tcp", crispAddr)
	failIf(e != nil, "listen: %v", e)
	done := vsched.NewChan[int](1)
	var got []byte
	words := make([]uint32, n)
	for i := range words {
		words[i] = bv[(i*7+n)%len(bv)]
	}
	var fails []uint32
	for i := 0; i < n*9; i++ {
		v := bv[(i*5+n)%len(bv)]
		if v > 1 && v < 0xffffff00 {
			fails = append(fails, v)
		}
	}
	send := func(c vnet.Conn, vs ...uint32) {
		var b []byte
		for _, v := range vs {
			b = append(b, enc(v)...)
		}
		c.Write(b)
	}
	vsched.Named("scripted server", func() {
		c, _ := l.Accept()
		send(c, 'C', 'R', 'I', 'S', 'P', uint32(crisp.V))
		b := make([]byte, 5000)
		// answers each operation when its last byte is there
		for {
			k, e := c.Read(b)
			if e != nil {
				break
			}
			got = append(got, b[:k]...)
			if bytes.HasSuffix(got, enc(uint32(crisp.Solve))) {
				r := crisp.Sat
				if kind == 1 {
					r = crisp.Unsat
				}
				send(c, uint32(r))
			}
			if bytes.HasSuffix(got, enc(uint32(crisp.Model))) {
				send(c, append([]uint32{uint32(n)}, words...)...)
			}
			if bytes.HasSuffix(got, enc(uint32(crisp.Failed))) {
				send(c, append(append([]uint32(nil), fails...), 0)...)
			}
		}
		done.Send(1)
	})
	c, e := crisp.Dial(crispAddr)
	failIf(e != nil, "Dial: %v", e)
	var want []uint32
	switch kind {
	case 0:
		_, e := c.Solve()
		failIf(e != nil, "Solve: %v", e)
		m, e := c.Model(nil)
		failIf(e != nil, "Model: %v", e)
		failIf(len(m) != 32*n+1, "model of %d words gives %d values", n, len(m)-1)
		for i, w := range words {
			for j := 0; j < 32; j++ {
				failIf(m[32*i+j+1] != (w>>uint(j)&1 == 1), "word %d is %x, value %d is %v", i, w, 32*i+j+1, m[32*i+j+1])
			}
		}
		want = []uint32{uint32(crisp.Solve), uint32(crisp.Model)}
	case 1:
		_, e := c.Solve()
		failIf(e != nil, "Solve: %v", e)
		ms, e := c.Why(nil)
		failIf(e != nil, "Why: %v", e)
		failIf(len(ms) != len(fails), "%d of %d failed assumptions", len(ms), len(fails))
		for i := range ms {
			failIf(uint32(ms[i]) != fails[i], "failed assumption %d: %d sent as %d", i, ms[i], fails[i])
		}
		want = []uint32{uint32(crisp.Solve), uint32(crisp.Failed)}
	case 2:
		// n values of one byte first, so that the others meet the end of a buffer everywhere
		want = append(want, uint32(crisp.Add))
		add := func(v uint32) {
			want = append(want, v)
			e := c.Add(z.Lit(v))
			failIf(e != nil, "Add: %v", e)
		}
		for i := 0; i < 980+n; i++ {
			add(5)
		}
		for _, v := range fails {
			add(v)
		}
		add(0)
		want = append(want, uint32(crisp.End), uint32(crisp.Assume))
		var ms []z.Lit
		for _, v := range fails {
			ms = append(ms, z.Lit(v))
		}
		if len(ms) == 0 {
			ms = append(ms, 4)
		}
		e := c.Assume(ms...)
		failIf(e != nil, "Assume: %v", e)
		for _, m := range ms {
			want = append(want, uint32(m))
		}
		want = append(want, 0, uint32(crisp.Solve))
		_, e = c.Solve()
		failIf(e != nil, "Solve: %v", e)
	}
	want = append(want, uint32(crisp.Quit))
	e = c.Quit()
	failIf(e != nil, "Quit: %v", e)
	vsched.Quiesce()
	c.Close()
	done.Recv()
	var wb []byte
	for _, v := range want {
		wb = append(wb, enc(v)...)
	}
	failIf(!bytes.Equal(got, wb), "the client sent %d bytes, it should be %d (%x, %x)", len(got), len(wb), lastBytes(got), lastBytes(wb))
}

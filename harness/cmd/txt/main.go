// txt decides the text input properties: C11 (DIMACS CNF) and C12 (ICNF and
// solver output).
package main

import (
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/z"

	"vh/eng"
)

func main() { eng.Main(c11(), c12()) }

func prod(yield func(c []int32) bool, dims ...int) bool {
	c := make([]int32, len(dims))
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(dims) {
			return yield(c)
		}
		for x := 0; x < dims[i]; x++ {
			c[i] = int32(x)
			if !rec(i + 1) {
				return false
			}
		}
		return true
	}
	return rec(0)
}

// class of a text in its format.
type class int

const (
	valid     class = iota // well formed: must be read, exactly
	gray                   // one evident reading, but layout or numerals out of the ordinary: read exactly, or rejected
	malformed              // must be rejected
)

func (c class) String() string { return [...]string{"valid", "gray", "malformed"}[c] }

type event struct {
	k byte // i init, a add, u assume, s solution, v value, e eof
	x int
	y int
}

type rec struct{ ev []event }

func (r *rec) Init(v, c int)  { r.ev = append(r.ev, event{'i', v, c}) }
func (r *rec) Add(m z.Lit)    { r.ev = append(r.ev, event{'a', m.Dimacs(), 0}) }
func (r *rec) Assume(m z.Lit) { r.ev = append(r.ev, event{'u', m.Dimacs(), 0}) }
func (r *rec) Solution(x int) { r.ev = append(r.ev, event{'s', x, 0}) }
func (r *rec) Value(m z.Lit)  { r.ev = append(r.ev, event{'v', m.Dimacs(), 0}) }
func (r *rec) Eof()           { r.ev = append(r.ev, event{'e', 0, 0}) }

func evs(ev []event) string {
	var b strings.Builder
	for _, e := range ev {
		fmt.Fprintf(&b, "%c%d ", e.k, e.x)
	}
	return b.String()
}

// ref is what a text says.
type ref struct {
	cl     class
	ev     []event
	hdr    bool
	nv, nc int
	maxV   int
	nCl    int
}

func (r *ref) worsen(c class) {
	if c > r.cl {
		r.cl = c
	}
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

// strip removes the comment lines.
func strip(s string) string {
	if !strings.Contains(s, "c") {
		return s
	}
	var b strings.Builder
	for len(s) > 0 {
		i := strings.IndexByte(s, '\n')
		l := s
		if i >= 0 {
			l = s[:i+1]
		}
		if l[0] != 'c' {
			b.WriteString(l)
		}
		s = s[len(l):]
	}
	return b.String()
}

func fields(s string) []string {
	return strings.FieldsFunc(s, func(r rune) bool { return r < 128 && isWS(byte(r)) })
}

// num reads a numeral.
func (r *ref) num(t string) int {
	d := t
	if strings.HasPrefix(d, "-") {
		d = d[1:]
	}
	if d == "" {
		r.worsen(malformed)
		return 0
	}
	for i := 0; i < len(d); i++ {
		if d[i] < '0' || d[i] > '9' {
			r.worsen(malformed)
			return 0
		}
	}
	if len(d) > 1 && d[0] == '0' || t == "-0" {
		r.worsen(gray)
	}
	n, e := strconv.ParseInt(t, 10, 64)
	if e != nil || n > 1<<31-1 || n < -(1<<31-1) {
		r.worsen(malformed)
		return 0
	}
	return int(n)
}

func refCnf(text string) *ref {
	r := &ref{}
	s := strip(text)
	// the header line
	t := strings.TrimLeft(s, " \t\r\n")
	if strings.HasPrefix(t, "p") {
		if len(t) != len(s) {
			r.worsen(gray)
		}
		l := t
		if i := strings.IndexByte(t, '\n'); i >= 0 {
			l = t[:i]
			s = t[i:]
		} else {
			s = ""
		}
		f := fields(l)
		if len(f) != 4 || f[0] != "p" || f[1] != "cnf" {
			r.cl = malformed
			return r
		}
		if !strings.HasPrefix(l, "p cnf ") {
			r.worsen(gray)
		}
		r.hdr = true
		c := r.cl
		r.nv, r.nc = r.num(f[2]), r.num(f[3])
		if r.cl == malformed || r.nv < 0 || r.nc < 0 {
			big := func(t string) bool { // numerals beyond 2^31: accepted or not
				for i := 0; i < len(t); i++ {
					if t[i] < '0' || t[i] > '9' {
						return false
					}
				}
				return true
			}
			if big(f[2]) && big(f[3]) {
				r.cl = c
				r.worsen(gray)
				r.nv, r.nc = -7, -7
			} else {
				r.cl = malformed
				return r
			}
		}
	}
	r.ev = append(r.ev, event{'i', r.nv, r.nc})
	in := false
	for _, t := range fields(s) {
		x := r.num(t)
		if r.cl == malformed {
			return r
		}
		r.ev = append(r.ev, event{'a', x, 0})
		in = x != 0
		if !in {
			r.nCl++
		}
		if x < 0 {
			x = -x
		}
		if x > r.maxV {
			r.maxV = x
		}
	}
	if in {
		r.cl = malformed
	}
	r.ev = append(r.ev, event{'e', 0, 0})
	return r
}

func (r *ref) strict() *ref {
	q := *r
	if !r.hdr || r.nv != r.maxV || r.nc != r.nCl {
		q.cl = malformed
	}
	return &q
}

func refICnf(text string) *ref {
	r := &ref{}
	s := strip(text)
	const h = "p inccnf\n"
	if strings.HasPrefix(s, h) {
		s = s[len(h):]
	} else {
		t := strings.TrimLeft(s, " \t\r\n")
		l := t
		if i := strings.IndexByte(t, '\n'); i >= 0 {
			l = t[:i]
			s = t[i:]
		} else {
			s = ""
		}
		if f := fields(l); len(f) != 2 || f[0] != "p" || f[1] != "inccnf" {
			r.cl = malformed
			return r
		}
		r.worsen(gray)
	}
	in := false
	kind := byte('a')
	for _, t := range fields(s) {
		if t[0] == 'a' && !in {
			in = true
			kind = 'u'
			if len(t) == 1 {
				continue
			}
			r.worsen(gray) // glued
			t = t[1:]
		}
		x := r.num(t)
		if r.cl == malformed {
			return r
		}
		r.ev = append(r.ev, event{kind, x, 0})
		in = x != 0
		if !in {
			kind = 'a'
		}
	}
	if in {
		r.cl = malformed
	}
	r.ev = append(r.ev, event{'e', 0, 0})
	return r
}

func refSolve(text string) *ref {
	r := &ref{}
	s := strip(text)
	nS, done := 0, false
	for len(s) > 0 {
		l := s
		if i := strings.IndexByte(s, '\n'); i >= 0 {
			l = s[:i]
			s = s[i+1:]
		} else {
			s = ""
		}
		if l == "" {
			continue
		}
		t := strings.TrimLeft(l, " \t\r")
		if t == "" {
			r.worsen(gray)
			continue
		}
		if t != l {
			r.worsen(gray)
		}
		switch t[0] {
		case 's':
			nS++
			f := fields(t[1:])
			if w := strings.Fields(t[1:]); len(w) == 1 && (len(f) != 1 || f[0] != w[0]) {
				r.worsen(gray) // other white space
				f = w
			}
			if len(f) != 1 {
				r.cl = malformed
				return r
			}
			if len(t) < 2 || t[1] != ' ' || len(t) > 2 && isWS(t[2]) {
				r.worsen(gray)
			}
			switch f[0] {
			case "SATISFIABLE":
				r.ev = append(r.ev, event{'s', 1, 0})
			case "UNSATISFIABLE":
				r.ev = append(r.ev, event{'s', -1, 0})
			case "UNKNOWN":
				r.ev = append(r.ev, event{'s', 0, 0})
			default:
				r.cl = malformed
				return r
			}
		case 'v':
			if len(t) > 1 && !isWS(t[1]) {
				r.worsen(gray)
			}
			for _, w := range fields(t[1:]) {
				if done {
					r.worsen(gray)
				}
				x := r.num(w)
				if r.cl == malformed {
					return r
				}
				if x == 0 {
					done = true
				}
				r.ev = append(r.ev, event{'v', x, 0})
			}
		default:
			r.cl = malformed
			return r
		}
	}
	if nS > 1 {
		r.worsen(gray)
	}
	r.ev = append(r.ev, event{'e', 0, 0})
	return r
}

const (
	fCnf = iota
	fStrict
	fICnf
	fSolve
)

var fmtName = []string{"ReadCnf", "ReadCnfStrict", "ReadICnf", "ReadSolve"}

func reference(text string, f int) *ref {
	switch f {
	case fCnf:
		return refCnf(text)
	case fStrict:
		return refCnf(text).strict()
	case fICnf:
		return refICnf(text)
	}
	return refSolve(text)
}

func run(r io.Reader, f int) ([]event, error) {
	v := &rec{}
	var e error
	switch f {
	case fCnf:
		e = dimacs.ReadCnf(r, v)
	case fStrict:
		e = dimacs.ReadCnfStrict(r, v, true)
	case fICnf:
		e = dimacs.ReadICnf(r, v)
	default:
		e = dimacs.ReadSolve(r, v)
	}
	return v.ev, e
}

func judge(r io.Reader, text string, f int, cov *eng.Cov) error {
	q := reference(text, f)
	return judgeRef(r, text, q, f, cov)
}

func judgeRef(r io.Reader, text string, q *ref, f int, cov *eng.Cov) error {
	cov.Trans++
	cov.Inc(q.cl.String())
	ev, e := run(r, f)
	if q.cl == valid {
		cov.Nontriv++
	}
	what := func(s string, a ...any) error {
		return fmt.Errorf("%s: %s\ntext %q (%s)", fmtName[f], fmt.Sprintf(s, a...), text, q.cl)
	}
	if e != nil {
		if q.cl == valid {
			return what("rejected: %v", e)
		}
		return nil
	}
	if q.cl == malformed {
		return what("accepted as %s", evs(ev))
	}
	cov.Traces++
	bad := len(ev) != len(q.ev)
	for i := 0; !bad && i < len(ev); i++ {
		g, w := ev[i], q.ev[i]
		if w.k == 'i' { // the capacities are hints unless given by a header
			if g.k != 'i' || q.hdr && q.nv >= 0 && (g.x != w.x || g.y != w.y) {
				bad = true
			}
		} else if g != w {
			bad = true
		}
	}
	if bad {
		return what("read as %s, it says %s", evs(ev), evs(q.ev))
	}
	return nil
}

// pieces delivers text in given pieces.
type pieces struct {
	s    string
	cuts func(i int) int // length of piece i
	i    int
	mode int // 1: the end comes with the last data; 2: nothing is read every other time
	end  error
}

func (p *pieces) Read(b []byte) (int, error) {
	if p.mode == 2 {
		p.mode = 3
		return 0, nil
	}
	if p.mode == 3 {
		p.mode = 2
	}
	if len(p.s) == 0 {
		return 0, p.end
	}
	n := p.cuts(p.i)
	p.i++
	if n < 1 {
		n = 1
	}
	if n > len(p.s) {
		n = len(p.s)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.s[:n])
	p.s = p.s[n:]
	if p.mode == 1 && len(p.s) == 0 {
		return n, p.end
	}
	return n, nil
}

var errRead = errors.New("some read error")

func tokPart(name string, fs []int, prefixes, toks []string, q, th int) *eng.Part {
	text := func(c []int32) string {
		var b strings.Builder
		b.WriteString(prefixes[c[0]])
		for _, x := range c[1:] {
			b.WriteString(toks[x])
		}
		return b.String()
	}
	return &eng.Part{
		Name: name,
		Desc: fmt.Sprintf("every sequence of up to %d (thorough %d) of the %d tokens %q after each of the prefixes %q", q, th, len(toks), toks, prefixes),
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := 0; n <= t.Pick(q, th); n++ {
				dims := []int{len(prefixes)}
				for i := 0; i < n; i++ {
					dims = append(dims, len(toks))
				}
				if !prod(yield, dims...) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := text(c)
			for _, f := range fs {
				if e := judge(strings.NewReader(s), s, f, cov); e != nil {
					return e
				}
			}
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprintf("%q", text(c)) },
		Hang: 20 * time.Second,
	}
}

// fixed: a corpus of valid texts for a set of formats
func corpusParts(fs []int, corpus []string) []*eng.Part {
	each := func(text string, mk func() io.Reader, cov *eng.Cov) error {
		for _, f := range fs {
			if e := judge(mk(), text, f, cov); e != nil {
				return e
			}
		}
		return nil
	}
	mutate := func(c []int32) string {
		s := corpus[c[0]]
		p := int(c[2])
		switch c[1] {
		case 0:
			return s[:p] + string([]byte{byte(c[3])}) + s[p+1:]
		case 1:
			return s[:p] + string([]byte{byte(c[3])}) + s[p:]
		case 2:
			return s[:p] + s[p+1:]
		default:
			return s[:p]
		}
	}
	bytesPart := &eng.Part{
		Name: "bytes",
		Desc: fmt.Sprintf("%d corpus texts: every substitution and insertion of each of the 256 byte values at every position, every deletion, every truncation", len(corpus)),
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i, s := range corpus {
				for p := 0; p <= len(s); p++ {
					for b := 0; b < 256; b++ {
						if p < len(s) && !yield([]int32{int32(i), 0, int32(p), int32(b)}) {
							return
						}
						if !yield([]int32{int32(i), 1, int32(p), int32(b)}) {
							return
						}
					}
					if p < len(s) && !yield([]int32{int32(i), 2, int32(p), 0}) {
						return
					}
					if !yield([]int32{int32(i), 3, int32(p), 0}) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := mutate(c)
			return each(s, func() io.Reader { return strings.NewReader(s) }, cov)
		},
		Show: func(c []int32) string { return fmt.Sprintf("%q", mutate(c)) },
		Hang: 20 * time.Second,
	}
	chunks := &eng.Part{
		Name: "chunks",
		Desc: "every corpus text: every way to cut its first 12 (thorough 16) bytes and its last 12 (16) bytes into pieces, with the end delivered separately, together with the last piece, and with empty reads in between",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			w := t.Pick(12, 16)
			for i := range corpus {
				for m := 0; m < 3; m++ {
					for end := 0; end < 2; end++ {
						for x := 0; x < 1<<uint(w-1); x++ {
							if !yield([]int32{int32(i), int32(m), int32(end), int32(x), int32(w)}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := corpus[c[0]]
			w := int(c[4])
			if w > len(s) {
				w = len(s)
			}
			var lens []int
			if c[2] == 1 && len(s) > w {
				lens = append(lens, len(s)-w)
			}
			l := 1
			for i := 0; i < w-1; i++ {
				if c[3]>>uint(i)&1 == 1 {
					lens = append(lens, l)
					l = 0
				}
				l++
			}
			lens = append(lens, l)
			cuts := func(i int) int {
				if i < len(lens) {
					return lens[i]
				}
				return len(s)
			}
			return each(s, func() io.Reader { return &pieces{s: s, cuts: cuts, mode: int(c[1]), end: io.EOF} }, cov)
		},
		Show: func(c []int32) string { return fmt.Sprintf("%q %v", corpus[c[0]], c[1:]) },
		Hang: 20 * time.Second,
	}
	faults := &eng.Part{
		Name: "read-errors",
		Desc: "every corpus text cut off after every prefix by a read error other than EOF, alone or together with the last data, in pieces of 1..6 bytes: the error is reported",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i, s := range corpus {
				for p := 0; p <= len(s); p++ {
					for k := 1; k <= 6; k++ {
						for m := 0; m < 3; m++ {
							if !yield([]int32{int32(i), int32(p), int32(k), int32(m)}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := corpus[c[0]][:c[1]]
			cov.Nontriv++
			for _, f := range fs {
				cov.Trans++
				ev, e := run(&pieces{s: s, cuts: func(int) int { return int(c[2]) }, mode: int(c[3]), end: errRead}, f)
				if e == nil {
					return fmt.Errorf("%s: a read error after %q was not reported (read as %s)", fmtName[f], s, evs(ev))
				}
			}
			return nil
		},
		Hang: 10 * time.Second,
	}
	stuck := &eng.Part{
		Name: "stuck",
		Desc: "every corpus text, every prefix, then a reader that never delivers anything more (0, nil): the reader ends with an error",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for i, s := range corpus {
				for p := 0; p <= len(s); p++ {
					if !yield([]int32{int32(i), int32(p)}) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := corpus[c[0]][:c[1]]
			for _, f := range fs {
				cov.Trans++
				ev, e := run(&pieces{s: s, cuts: func(int) int { return 5 }, end: nil}, f)
				if e == nil {
					return fmt.Errorf("%s: no error from a stuck reader after %q (read as %s)", fmtName[f], s, evs(ev))
				}
			}
			return nil
		},
		Hang: 5 * time.Second,
	}
	return []*eng.Part{bytesPart, chunks, faults, stuck}
}

// pad puts padding in front of and into a text so that every token crosses
// the boundary of the readers' buffers.
func padPart(fs []int, bodies []string) *eng.Part {
	text := func(c []int32) string {
		s := bodies[c[0]]
		pad := strings.Repeat("x", int(c[2]))
		lines := strings.SplitAfter(s, "\n")
		i := int(c[1])
		if i >= len(lines) {
			i = len(lines) - 1
		}
		return strings.Join(lines[:i], "") + "c" + pad + "\n" + strings.Join(lines[i:], "")
	}
	blank := func(c []int32) string {
		s := bodies[c[0]]
		pad := strings.Repeat(" ", int(c[2]))
		return s + pad + s[strings.IndexByte(s, '\n')+1:]
	}
	return &eng.Part{
		Name: "buffers",
		Desc: "comments of every length 4040..4110 and 8140..8200 (thorough: 0..8300) and around the powers of two up to 2^20 before each of the first 4 lines, and blank runs of the same lengths, so that every token falls across the 4096 byte buffers",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for b := range bodies {
				for n := 0; n <= 1<<20; n++ {
					if n > 8300 && n&(n-1) > 16 && n&(n+15) > 16 {
						continue // not around a power of two
					}
					if t == eng.Quick && n <= 8300 && !(n >= 4040 && n <= 4110 || n >= 8140 && n <= 8200) {
						continue
					}
					if t == eng.Quick && n > 8300 && n%4 != 0 {
						continue
					}
					for l := 0; l < 5; l++ {
						if !yield([]int32{int32(b), int32(l), int32(n)}) {
							return
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := ""
			if c[1] == 4 {
				s = blank(c)
			} else {
				s = text(c)
			}
			for _, f := range fs {
				if e := judge(strings.NewReader(s), s, f, cov); e != nil {
					return e
				}
			}
			return nil
		},
	}
}

// bigPart: long texts.
func bigPart(fs []int) *eng.Part {
	sizes := [][2]int{{1, 20000}, {3, 7000}, {50, 400}, {1000, 20}, {30000, 1}, {2, 70000}}
	text := func(c []int32) string {
		f, n, m, lay := int(c[0]), sizes[c[1]][0], sizes[c[1]][1], c[2]
		sep, end := " ", "\n"
		switch lay {
		case 1:
			sep = "\n"
		case 2:
			end = " "
		}
		if f == fICnf || f == fSolve { // lines matter
			sep, end = " ", "\n"
		}
		var b strings.Builder
		switch f {
		case fCnf, fStrict:
			fmt.Fprintf(&b, "p cnf 999 %d\n", m)
		case fICnf:
			b.WriteString("p inccnf\n")
		}
		for i := 0; i < m; i++ {
			if f == fSolve {
				b.WriteString("v ")
			} else if f == fICnf && i%3 == int(lay) {
				b.WriteString("a ")
			}
			for j := 0; j < n; j++ {
				v := (i*n+j)*7%999 + 1
				if (i+j)%3 == 1 {
					v = -v
				}
				fmt.Fprintf(&b, "%d", v)
				if f != fSolve || j < n-1 {
					b.WriteString(sep)
				}
			}
			if f != fSolve {
				b.WriteString("0")
			} else if i == m-1 {
				b.WriteString(" 0")
			}
			b.WriteString(end)
		}
		return b.String()
	}
	return &eng.Part{
		Name: "large",
		Desc: "texts of up to 140000 literals: many short clauses to one long one, over lines or on one, whole and in pieces of 1, 7 and 4097 bytes",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for _, f := range fs {
				for s := range sizes {
					for l := int32(0); l < 3; l++ {
						for k := int32(0); k < 4; k++ {
							if !yield([]int32{int32(f), int32(s), l, k}) {
								return
							}
						}
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := text(c)
			if c[3] == 0 {
				return judge(strings.NewReader(s), s, int(c[0]), cov)
			}
			return judge(&pieces{s: s, cuts: func(int) int { return []int{0, 1, 7, 4097}[c[3]] }, end: io.EOF}, s, int(c[0]), cov)
		},
		Show: func(c []int32) string {
			return fmt.Sprintf("%s, %d literals in each of %d, layout %d, pieces %d", fmtName[c[0]], sizes[c[1]][0], sizes[c[1]][1], c[2], c[3])
		},
		Hang: 30 * time.Second,
	}
}

func c11() *eng.Prop {
	fs := []int{fCnf, fStrict}
	corpus := []string{
		"",
		"p cnf 0 0\n",
		"p cnf 2 2\n1 -2 0\n2 0\n",
		"c x\np cnf 3 2\nc y\n1 -3 0\nc\n2\n0\n",
		"1 2 0 -1 0\n",
		"c\n\nc\n\n3 0",
		"p cnf 12 3\n-1\t12 0 0\r\n-12 0",
		"p cnf 2147483647 1\n-2147483647 0\n",
		"p cnf 1 3\n\n\n1 0 -1 0\n c\n",
		"p cnf 2 1 \r\n1 2 0\r\n",
		"c a\nc b\n1 0\nc end",
	}
	parts := []*eng.Part{
		tokPart("tokens", fs, []string{"", "p cnf 2 1\n"}, []string{"1", "-2", "0", " ", "\n", "\t", "\r", "c", "c x\n", "-", "p", "p cnf 2 1\n", "10"}, 6, 7),
		tokPart("headers", fs, []string{"", "c\n", "\n"}, []string{"p", "cnf", " ", "\n", "1", "2", "-1", "0", "99999999999999999999", "c"}, 6, 7),
	}
	parts = append(parts, corpusParts(fs, corpus)...)
	parts = append(parts, bigPart(fs))
	parts = append(parts, padPart(fs, []string{"p cnf 123 2\n-123 45 0\n6 -78 0\n", "-1234567 12 0\n77 0\n\n5 0\n"}))
	nums := []string{"0", "1", "-0", "01", "-", "--1", "+1", "1-", "0x1", "2147483647", "2147483648", "-2147483647", "-2147483648", "4294967295", "4294967296", "4294967297", "-4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551617", "99999999999999999999999", "1073741824", "1.0", "1e1", "\u0661"}
	numText := func(c []int32) string {
		s := []string{"p cnf %s %s\n1 0\n", "%s %s 0\n", "p cnf 5 5\n%s 0\n%s 0\n", "1 %s\n%s 0"}[c[0]]
		return fmt.Sprintf(s, nums[c[1]], nums[c[2]])
	}
	parts = append(parts, &eng.Part{
		Name: "numerals",
		Desc: "every pair of 25 numerals around the limits of variables, literals and machine integers, in headers and clauses; headers also through gini.NewDimacs",
		Enum: func(t eng.Tier, yield func([]int32) bool) { prod(yield, 4, len(nums), len(nums)) },
		Run: func(c []int32, cov *eng.Cov) error {
			s := numText(c)
			for _, f := range fs {
				if e := judge(strings.NewReader(s), s, f, cov); e != nil {
					return e
				}
			}
			if c[0] == 0 {
				_, e := gini.NewDimacs(strings.NewReader(s))
				if cl := refCnf(s).cl; (e == nil) != (cl != malformed) && cl != gray {
					return fmt.Errorf("NewDimacs on %q: %v", s, e)
				}
			}
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprintf("%q", numText(c)) },
	})
	// through the solver
	toks := []string{"1", "-1", "2", "-2", "3", "0", "\n", "c\n"}
	solText := func(c []int32) string {
		var b strings.Builder
		if c[0] == 1 {
			b.WriteString("p cnf 3 2\n")
		}
		for _, x := range c[1:] {
			b.WriteString(toks[x] + " ")
		}
		return b.String()
	}
	parts = append(parts, &eng.Part{
		Name: "solver",
		Desc: "every sequence of up to 5 (thorough 6) of 8 tokens over 3 variables, with and without header, through gini.NewDimacs: rejected exactly if malformed, else the solver has exactly the models of the clauses (all 8 assignments assumed in turn)",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := 0; n <= t.Pick(5, 6); n++ {
				dims := []int{2}
				for i := 0; i < n; i++ {
					dims = append(dims, len(toks))
				}
				if !prod(yield, dims...) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := solText(c)
			q := refCnf(s)
			if q.cl == malformed && c[0] == 1 {
				return nil
			}
			g, e := gini.NewDimacs(strings.NewReader(s))
			cov.Trans++
			if (e == nil) != (q.cl == valid) {
				return fmt.Errorf("%q is %s, NewDimacs gave %v", s, q.cl, e)
			}
			if e != nil {
				return nil
			}
			cov.Nontriv++
			for a := 0; a < 8; a++ {
				want := 1
				ok := false
				for _, ev := range q.ev {
					if ev.k != 'a' {
						continue
					}
					if ev.x == 0 {
						if !ok {
							want = -1
						}
						ok = false
						continue
					}
					v := ev.x
					if v < 0 {
						v = -v
					}
					if (a>>uint(v-1)&1 == 1) == (ev.x > 0) {
						ok = true
					}
				}
				for v := 1; v <= 3; v++ {
					if a>>uint(v-1)&1 == 1 {
						g.Assume(z.Dimacs2Lit(v))
					} else {
						g.Assume(z.Dimacs2Lit(-v))
					}
				}
				cov.Traces++
				if r := g.Solve(); r != want {
					return fmt.Errorf("%q under assignment %03b: Solve gave %d, expected %d", s, a, r, want)
				}
			}
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprintf("%q", solText(c)) },
	})
	return &eng.Prop{ID: "C11", Level: "model_checking",
		Rule:  "a case is non-trivial if a text is well formed, or a fault is injected",
		Parts: parts,
		Notes: []string{"texts with one evident reading but unusual layout or numerals (leading zeros, -0, blanks before the header) may be read exactly or rejected"},
	}
}

func c12() *eng.Prop {
	fi := []int{fICnf}
	fv := []int{fSolve}
	ic := []string{
		"p inccnf\n",
		"p inccnf\n1 -2 0\na 1 0\n",
		"c x\np inccnf\nc\n1 0\nc y\na 2 -1 0\na 0\n-2 0\na 12 0",
		"p inccnf\n1 2\n0 -1 0 \na 1\n2 0 a 0\n\n",
		"p inccnf\r\n1 0\r\na 1 0\r\n",
		"p inccnf\n\t1 0\n  a\t-2147483647 0\n\n\na 1 0\n",
		"p inccnf\n0\na 0\n",
	}
	sc := []string{
		"",
		"s SATISFIABLE\nv 1 -2 3 0\n",
		"c hello\ns UNSATISFIABLE\n",
		"s UNKNOWN\n",
		"c a\nv 1 -2\nv 3\nc b\nv -4 0\ns SATISFIABLE\n",
		"s SATISFIABLE \r\nv 1 2 \r\nv -2147483647 0\r\n",
		"v 1  2\t-3\nv\nv 0",
		"s UNSATISFIABLE",
	}
	it := tokPart("icnf-tokens", fi, []string{"p inccnf\n"}, []string{"a", "1", "-2", "0", " ", "\n", "\r", "c x\n", "c", "-", "p"}, 7, 8)
	ih := tokPart("icnf-headers", fi, []string{"", "c\n", "\n"}, []string{"p", " ", "inccnf", "\n", "cnf", "1 0", "a", "\r"}, 5, 6)
	st := tokPart("solve-tokens", fv, []string{"", "c x\n", "s SATISFIABLE\n"}, []string{"s", "v", " ", "\n", "1", "-2", "0", "SATISFIABLE", "UNSATISFIABLE", "UNKNOWN", "c", "\r"}, 6, 7)
	vt := tokPart("values-tokens", fv, []string{"v 1 2 ", "s UNKNOWN\nv"}, []string{"v", " ", "\n", "1", "-", "0", "c x\n", "s UNSATISFIABLE\n"}, 7, 8)
	ren := func(pre string, ps []*eng.Part) []*eng.Part {
		for _, p := range ps {
			p.Name = pre + p.Name
		}
		return ps
	}
	parts := []*eng.Part{it, ih, st, vt}
	parts = append(parts, bigPart([]int{fICnf, fSolve}))
	parts = append(parts, ren("icnf-", append(corpusParts(fi, ic), padPart(fi, []string{"p inccnf\n-123 45 0\na 6 -78 0\n", "p inccnf\na 1234567 0\n\na\n5 0\n"})))...)
	parts = append(parts, ren("solve-", append(corpusParts(fv, sc), padPart(fv, []string{"s UNSATISFIABLE\nv -123 45\nv 6 -78 0\n", "v -1234567\n\nv 5 0\ns SATISFIABLE\n"})))...)
	nums := []string{"0", "1", "-0", "01", "-", "--1", "+1", "1-", "2147483647", "2147483648", "-2147483647", "-2147483648", "4294967296", "4294967297", "-4294967297", "9223372036854775808", "18446744073709551617", "99999999999999999999999", "1.0"}
	numText := func(c []int32) (string, int) {
		s := []string{"p inccnf\n%s %s 0\n", "p inccnf\na %s %s 0\n", "v %s %s 0\n", "v %s\nv %s 0"}[c[0]]
		return fmt.Sprintf(s, nums[c[1]], nums[c[2]]), []int{fICnf, fICnf, fSolve, fSolve}[c[0]]
	}
	parts = append(parts, &eng.Part{
		Name: "numerals",
		Desc: "every pair of 19 numerals around the limits of variables, literals and machine integers in clauses, cubes and value lines",
		Enum: func(t eng.Tier, yield func([]int32) bool) { prod(yield, 4, len(nums), len(nums)) },
		Run: func(c []int32, cov *eng.Cov) error {
			s, f := numText(c)
			return judge(strings.NewReader(s), s, f, cov)
		},
		Show: func(c []int32) string { s, _ := numText(c); return fmt.Sprintf("%q", s) },
	})
	return &eng.Prop{ID: "C12", Level: "model_checking",
		Rule:  "a case is non-trivial if a text is well formed, or a fault is injected",
		Parts: parts,
		Notes: []string{"several status lines, values after the terminating 0, or glued line letters are read in order or rejected"},
	}
}

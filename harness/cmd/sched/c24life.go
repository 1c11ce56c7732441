//go:build sched

package main

import (
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/vnet"
	"github.com/go-air/gini/vruntime"
	"github.com/go-air/gini/vsched"
	"github.com/go-air/gini/z"

	"vh/eng"
)

// what happens to servers at one address
const (
	lStart = iota // a new server is made and serves
	lNew          // a new server is made
	lStop         // the last server is shut down (again)
	lAgain        // the server before the last is shut down again
	lSess         // a session, which must work if and only if a server is there
	lKeep         // a session is opened and kept
	lUse          // the kept session is used
	lOps
)

var lNames = []string{"start", "new", "shut down", "shut down the one before again", "session", "open", "use"}

var lifeAddrs = []string{"@/run/s", "localhost:1", "@/run/file"}

func lifeScript(c []int32) string {
	var n []string
	for _, x := range c {
		n = append(n, lNames[x])
	}
	return lifeAddrs[c[0]] + ": " + strings.Join(n[1:], ", ")
}

// lifeOK says whether a script of lifecycle operations says what must happen:
// no server is started at the address of one that is running (a unix socket
// is taken over then), and there is something to shut down or use.
func lifeOK(c []int32) bool {
	made, kept := 0, false
	live, serves := false, false
	for _, x := range c[1:] {
		switch x {
		case lStart, lNew:
			if live {
				return false
			}
			made++
			live, serves = true, x == lStart
		case lStop:
			if made == 0 {
				return false
			}
			live, serves = false, false
		case lAgain:
			if made < 2 {
				return false
			}
		case lKeep:
			if !serves || kept {
				return false
			}
			kept = true
		case lUse:
			if !kept {
				return false
			}
		case lSess:
			if live && !serves {
				return false
			}
		}
	}
	return true
}

func lifeUse(c *crisp.Client, where string) {
	c.Add(z.Dimacs2Lit(1))
	c.Add(0)
	r, e := c.Solve()
	failIf(e != nil || r != 1, "%s: Solve gives %d, %v", where, r, e)
	c.Assume(z.Dimacs2Lit(-1))
	r, e = c.Solve()
	failIf(e != nil || r != -1, "%s: Solve under -1 gives %d, %v", where, r, e)
}

func runLife(c []int32) func() {
	a := lifeAddrs[c[0]]
	handlers := 1
	for _, x := range c[1:] {
		if x == lKeep {
			handlers = 2
		}
	}
	return func() {
		log.SetOutput(io.Discard)
		vnet.Reset()
		vruntime.CPUs = handlers
		if c[0] == 2 {
			// something else is there
			vnet.PutFile(a[1:])
		}
		var ss []*crisp.Server
		var kept *crisp.Client
		live := false
		for i, x := range c[1:] {
			where := fmt.Sprintf("step %d (%s)", i+1, lNames[x])
			switch x {
			case lStart, lNew:
				s, e := crisp.NewServer(a)
				if c[0] == 2 {
					failIf(e == nil, "%s: a server was made in place of a file", where)
					m, ok := vnet.Mode(a[1:])
					failIf(!ok || m&os.ModeSocket != 0, "%s: the file that was there is gone", where)
					return
				}
				failIf(e != nil, "%s: %v", where, e)
				ss = append(ss, s)
				live = true
				if x == lStart {
					vsched.Named("server", func() { s.Serve() })
				}
			case lStop:
				e := ss[len(ss)-1].Shutdown()
				failIf(live && e != nil, "%s: %v", where, e)
				live = false
			case lAgain:
				ss[len(ss)-2].Shutdown()
			case lKeep, lSess:
				cl, e := crisp.Dial(a)
				failIf(live && e != nil, "%s: a server is there, Dial gives %v", where, e)
				failIf(!live && e == nil, "%s: no server is there, Dial succeeds", where)
				if !live {
					break
				}
				if x == lKeep {
					kept = cl
					break
				}
				vsched.Fixed(true)
				lifeUse(cl, where)
				cl.Quit()
				cl.Close()
				vsched.Fixed(false)
			case lUse:
				vsched.Fixed(true)
				lifeUse(kept, where)
				vsched.Fixed(false)
			}
		}
		if kept != nil {
			kept.Quit()
			kept.Close()
		}
		if live {
			e := ss[len(ss)-1].Shutdown()
			failIf(e != nil, "Shutdown: %v", e)
		}
		vsched.Daemons()
		w := vsched.Drain()
		for _, x := range strings.Split(w, "; ") {
			failIf(w != "" && !strings.Contains(x, "waits in receive"), "left behind after all servers were shut down: %s", w)
		}
		if _, ok := vnet.Mode(strings.TrimPrefix(a, "@")); ok {
			vsched.Fail("the socket is left behind")
		}
	}
}

func lifePart() *eng.Part {
	return &eng.Part{
		Name: "lifecycle",
		Desc: "servers at one address (a unix socket, a TCP port, or a path where some other file is) made, started, shut down, shut down again and replaced, with sessions opened, kept and used in between: every sequence of up to 5 (thorough 7) of these that makes sense; every schedule, in particular of a server that notices its end late",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			if !yield([]int32{2, lStart}) || !yield([]int32{2, lNew}) {
				return
			}
			for n := 1; n <= t.Pick(5, 7); n++ {
				for a := int32(0); a < 2; a++ {
					if !tuples(n, lOps, func(c []int32) bool {
						c = append([]int32{a}, c...)
						return !lifeOK(c) || yield(c)
					}) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			return exploreCrisp(lifeScript(c), runLife(c), 20000, 0, cov)
		},
		Show: lifeScript,
		Hang: time.Minute, Dynamic: true,
	}
}

// addrPart: the printed form of an address is the address.
func addrPart() *eng.Part {
	const letters = "@a:/.1 "
	str := func(c []int32) string {
		var b []byte
		for _, x := range c {
			b = append(b, letters[x])
		}
		return string(b)
	}
	return &eng.Part{
		Name: "addresses",
		Desc: "every string of up to 6 (thorough 7) of the characters \"" + letters + "\" as an address: what is printed for it is the string, and parsed again gives the same address; @ and only @ makes it a unix socket",
		Enum: func(t eng.Tier, yield func(c []int32) bool) {
			for n := 0; n <= t.Pick(6, 7); n++ {
				if !tuples(n, len(letters), yield) {
					return
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			s := str(c)
			a := crisp.ParseAddr(s)
			cov.Traces++
			cov.States++
			cov.Nontriv++
			want := crisp.Addr{Network: "tcp", NetAddr: s}
			if strings.HasPrefix(s, "@") {
				want = crisp.Addr{Network: "unix", NetAddr: s[1:]}
			}
			if a == nil || *a != want {
				return fmt.Errorf("%q is parsed as %+v, not %+v", s, a, want)
			}
			if t := a.String(); t != s {
				return fmt.Errorf("%q is printed as %q", s, t)
			}
			return nil
		},
		Show: func(c []int32) string { return fmt.Sprintf("%q", str(c)) },
		Hang: time.Minute,
	}
}

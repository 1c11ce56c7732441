// Package eng is the exploration engine shared by all checks.
//
// A property is decided by one or more Parts.  A Part enumerates a bounded
// space of cases (sequences of int32) in a fixed order, and runs every one of
// them against the implementation and a reference model.  The space is split
// over worker processes (case index modulo the number of workers); a worker
// that dies or stops making progress is itself a finding, attributed to the
// case it was running.
package eng

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Cov accumulates what a run covered.
type Cov struct {
	Cases    int64            // cases run
	States   int64            // model states visited
	Trans    int64            // operations executed on model and implementation
	Traces   int64            // complete traces compared with the implementation
	Nontriv  int64            // cases that were non-trivial by the part's rule
	Counters map[string]int64 // named details
}

func (c *Cov) Inc(k string) { c.Add(k, 1) }
func (c *Cov) Add(k string, n int64) {
	if c.Counters == nil {
		c.Counters = map[string]int64{}
	}
	c.Counters[k] += n
}
func (c *Cov) merge(o *Cov) {
	c.Cases += o.Cases
	c.States += o.States
	c.Trans += o.Trans
	c.Traces += o.Traces
	c.Nontriv += o.Nontriv
	for k, v := range o.Counters {
		c.Add(k, v)
	}
}

// Tier says how deep to go.
type Tier int

const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// Pick returns q on the quick tier and th on the thorough tier.
func (t Tier) Pick(q, th int) int {
	if t == Thorough {
		return th
	}
	return q
}

// Part is one bounded space with its deciding procedure.
type Part struct {
	Name string
	Desc string // bounds, in words
	// Enum calls yield for every case, in a deterministic order, until yield
	// returns false.  The slice may be reused between calls.
	Enum func(t Tier, yield func(c []int32) bool)
	// Run decides one case.  A non-nil error is a violation.
	Run func(c []int32, cov *Cov) error
	// Show renders a case for humans.
	Show func(c []int32) string
	// Budget limits the time of this part (quick tier); 0 means the default.
	Budget time.Duration
	// Hang is how long one case may take before it counts as stuck.
	Hang time.Duration
	// Known maps a violation to the id of a known finding ("" if none).
	Known func(c []int32, err error) string
	// Serial runs the part in one worker only.
	Serial bool
	// Workers bounds the worker processes (0: all cores).
	Workers int
	// Dynamic lets each worker take the next case when it is done with one
	// (for few cases of very different size).
	Dynamic bool
	// Exe names another build of this program, beside it, that runs the cases,
	// with Env in its environment.
	Exe string
	Env []string
}

// command is the program that runs cases of the part.
func (p *Part) command(args ...string) *exec.Cmd {
	x := os.Args[0]
	if p.Exe != "" {
		x = filepath.Join(filepath.Dir(x), p.Exe)
	}
	cmd := exec.Command(x, args...)
	cmd.Env = append(os.Environ(), p.Env...)
	return cmd
}

// Prop is a property with the parts that decide it.
type Prop struct {
	ID    string
	Level string // model_checking, exploration or fault_enumeration
	Rule  string
	Parts []*Part
	Notes []string // assumptions recorded in the evidence
}

const maxCase = 4096

type shm struct {
	seq  int64 // incremented when a case starts
	n    int64
	busy int64
	data [maxCase]int32
}

type violation struct {
	Part   string  `json:"part"`
	Case   []int32 `json:"case"`
	Text   string  `json:"text"`
	Detail string  `json:"detail"`
	Known  string  `json:"known,omitempty"`
}

type workerOut struct {
	Part       string
	Cov        Cov
	Exhaustive bool
	Violations []violation
	Samples    []string
	Seen       int64
}

// Violations stop a part in a worker after this many distinct reports.
const maxViol = 3

var (
	fProp   = flag.String("prop", "", "property id")
	fPart   = flag.String("part", "", "only this part")
	fWorker = flag.Int("worker", -1, "internal: worker index")
	fN      = flag.Int("n", 0, "internal: number of workers")
	fShm    = flag.String("shm", "", "internal: shared file")
	fReplay = flag.String("replay", "", "replay a violation file")
	fTier   = flag.String("tier", "", "quick or thorough")
	fBudget = flag.Duration("budget", 0, "total budget")
	fOut    = flag.String("out", "", "verif root (default from VERIF_ROOT or /verif)")
	fAll    = flag.Bool("all", false, "report all violations (debugging)")
	fQuiet  = flag.Bool("exec1", false, "internal: run one case from stdin")
)

// CurTier is the tier of this run.
func CurTier() Tier { return tier() }

func tier() Tier {
	t := *fTier
	if t == "" {
		t = os.Getenv("VERIF_TIER")
	}
	if t == "thorough" {
		return Thorough
	}
	return Quick
}

func root() string {
	if *fOut != "" {
		return *fOut
	}
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// safeRun runs a case, turning panics into errors.
func safeRun(p *Part, c []int32, cov *Cov) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.Run(c, cov)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "runtime/") || strings.Contains(l, "eng.safeRun") {
			continue
		}
		out = append(out, l)
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// Main is the entry point of every check binary.
func Main(props ...*Prop) {
	flag.Parse()
	log.SetOutput(os.Stderr)
	var pr *Prop
	for _, p := range props {
		if p.ID == *fProp {
			pr = p
		}
	}
	if pr == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		os.Exit(2)
	}
	switch {
	case *fReplay != "":
		replay(pr)
	case *fQuiet:
		exec1(pr)
	case *fWorker >= 0:
		worker(pr)
	default:
		parent(pr)
	}
}

func findPart(pr *Prop, name string) *Part {
	for _, p := range pr.Parts {
		if p.Name == name {
			return p
		}
	}
	return nil
}

func show(p *Part, c []int32) string {
	if p.Show == nil {
		return fmt.Sprint(c)
	}
	s := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				s = fmt.Sprintf("%v (show: %v)", c, r)
			}
		}()
		s = p.Show(c)
	}()
	return s
}

// exec1 runs one case given as JSON on stdin; exit 1 with the error on stdout.
func exec1(pr *Prop) {
	var v violation
	if e := json.NewDecoder(os.Stdin).Decode(&v); e != nil {
		os.Exit(3)
	}
	p := findPart(pr, v.Part)
	if p == nil {
		os.Exit(3)
	}
	limitMemory()
	if e := safeRun(p, v.Case, &Cov{}); e != nil {
		fmt.Println(e)
		os.Exit(1)
	}
	os.Exit(0)
}

// runOnce runs a case in a fresh process.
func runOnce(pr *Prop, p *Part, v *violation, limit time.Duration) (bad bool, text string) {
	b, _ := json.Marshal(v)
	cmd := p.command("-prop", pr.ID, "-exec1", "-tier", tier().String())
	cmd.Stdin = bytes.NewReader(b)
	var ob, eb bytes.Buffer
	cmd.Stdout = &ob
	cmd.Stderr = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if e := cmd.Start(); e != nil {
		return false, e.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case e := <-done:
		if e == nil {
			return false, ""
		}
		ee, ok := e.(*exec.ExitError)
		if ok && ee.ExitCode() == 3 {
			return false, "replay error"
		}
		t := ob.String()
		if len(t) == 0 {
			t = "process died: " + e.Error() + "\n" + tail(eb.String(), 3000)
		}
		return true, t
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return true, fmt.Sprintf("no progress for %s (stuck)", limit)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

func hang(p *Part) time.Duration {
	if p.Hang != 0 {
		return p.Hang
	}
	return 60 * time.Second
}

func replay(pr *Prop) {
	b, e := os.ReadFile(*fReplay)
	if e != nil {
		fmt.Println(e)
		os.Exit(2)
	}
	var v violation
	if e := json.Unmarshal(b, &v); e != nil {
		fmt.Println(e)
		os.Exit(2)
	}
	p := findPart(pr, v.Part)
	if p == nil {
		fmt.Println("no such part", v.Part)
		os.Exit(2)
	}
	fmt.Printf("part %s case %s\n", v.Part, show(p, v.Case))
	bad, text := runOnce(pr, p, &v, hang(p))
	if bad {
		fmt.Println(text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, *fReplay)
		os.Exit(1)
	}
	fmt.Println("held")
}

// CurCase lets a running case replace what is recorded as "current" in the
// shared area, so that a crash in the middle is attributed precisely.
var curShm *shm

func setCur(c []int32) {
	if curShm == nil {
		return
	}
	n := len(c)
	if n > maxCase {
		n = maxCase
	}
	copy(curShm.data[:n], c[:n])
	atomic.StoreInt64(&curShm.n, int64(n))
	atomic.AddInt64(&curShm.seq, 1)
	atomic.StoreInt64(&curShm.busy, 1)
}

// Beat tells the parent that the current case is making progress.
func Beat() {
	if curShm != nil {
		atomic.AddInt64(&curShm.seq, 1)
	}
}

var deadline time.Time

var stateBM []uint64

const bmBits = 1 << 27

// State records a visited model state by its hash; distinct states are counted
// over all workers (hash collisions make the count a lower bound).
func State(h uint64) {
	if stateBM == nil {
		return
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	h &= bmBits - 1
	p := &stateBM[h>>6]
	m := uint64(1) << (h & 63)
	if atomic.LoadUint64(p)&m == 0 {
		atomic.OrUint64(p, m)
	}
}

// claims counts the cases of a part that workers have taken (parts with Dynamic).
var claims *int64

func mapBM(path string, create bool) []uint64 {
	fl := os.O_RDWR
	if create {
		fl |= os.O_CREATE
	}
	f, e := os.OpenFile(path, fl, 0o600)
	if e != nil {
		return nil
	}
	defer f.Close()
	if create {
		if f.Truncate(bmBits/8+4096) != nil {
			return nil
		}
	}
	m, e := syscall.Mmap(int(f.Fd()), 0, bmBits/8+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if e != nil {
		return nil
	}
	claims = (*int64)(unsafe.Pointer(&m[bmBits/8]))
	return unsafe.Slice((*uint64)(unsafe.Pointer(&m[0])), bmBits/64)
}

// H is a small incremental hash.
type H uint64

func NewH() H { return 1469598103934665603 }
func (h *H) I(x int) {
	*h = (*h ^ H(uint64(x))) * 1099511628211
	*h ^= *h >> 31
}
func (h *H) U(x uint64) { h.I(int(x)) }
func (h *H) S(s string) {
	for i := 0; i < len(s); i++ {
		*h = (*h ^ H(s[i])) * 1099511628211
	}
}

// OutOfTime tells whether the budget of this part is used up.
func OutOfTime() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// limitMemory makes allocating without bound a crash, not something to wait for.
func limitMemory() {
	syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: 3 << 30, Max: 3 << 30})
}

// Scratch is a directory of this process, removed at the end of the check.
func Scratch() string {
	if scratchDir == "" {
		d, e := os.MkdirTemp(os.Getenv("VH_SCRATCH"), "w")
		if e != nil {
			panic(e)
		}
		scratchDir = d
	}
	return scratchDir
}

var scratchDir string

// OutOfTimeBeat is OutOfTime and Beat.
func OutOfTimeBeat() bool { Beat(); return OutOfTime() }

func worker(pr *Prop) {
	debug.SetGCPercent(400)
	if e := syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{}); e != nil {
		_ = e
	}
	limitMemory()
	f, e := os.OpenFile(*fShm, os.O_RDWR, 0)
	if e == nil {
		m, e := syscall.Mmap(int(f.Fd()), 0, int(unsafe.Sizeof(shm{})), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		if e == nil {
			curShm = (*shm)(unsafe.Pointer(&m[0]))
		}
	}
	stateBM = mapBM(os.Getenv("VH_BM"), false)
	p := findPart(pr, *fPart)
	out := workerOut{Part: p.Name, Exhaustive: true}
	deadline = time.Now().Add(*fBudget)
	idx := int64(0)
	me, n := int64(*fWorker), int64(*fN)
	// startAt: cases with a smaller index are skipped (restart after a crash)
	start, _ := strconv.ParseInt(os.Getenv("VH_START"), 10, 64)
	sigs := map[string]bool{}
	cnt := 0
	dyn := p.Dynamic && n > 1 && claims != nil
	mine := int64(0)
	if dyn {
		mine = atomic.AddInt64(claims, 1) - 1
	}
	p.Enum(tier(), func(c []int32) bool {
		i := idx
		idx++
		if dyn {
			if i != mine {
				return true
			}
			mine = atomic.AddInt64(claims, 1) - 1
		} else if n > 1 && i%n != me {
			return true
		}
		if i < start {
			return true
		}
		cnt++
		if (dyn || cnt&15 == 0) && time.Now().After(deadline) {
			out.Exhaustive = false
			return false
		}
		setCur(c)
		err := safeRun(p, c, &out.Cov)
		out.Cov.Cases++
		if len(out.Samples) < 2 && (cnt == 3 || cnt == 40) {
			out.Samples = append(out.Samples, show(p, c))
		}
		if err != nil {
			v := violation{Part: p.Name, Case: append([]int32{}, c...), Text: show(p, c), Detail: err.Error()}
			if p.Known != nil {
				v.Known = p.Known(c, err)
			}
			k := v.Known
			if k == "" || !sigs[k] {
				out.Violations = append(out.Violations, v)
				if k != "" {
					sigs[k] = true
				}
			}
			if k == "" {
				nv := 0
				for _, x := range out.Violations {
					if x.Known == "" {
						nv++
					}
				}
				if nv >= maxViol && !*fAll {
					out.Exhaustive = false
					return false
				}
			}
		}
		return true
	})
	out.Seen = idx
	if out.Cov.Counters["cut short"] > 0 {
		out.Exhaustive = false
	}
	if curShm != nil {
		atomic.StoreInt64(&curShm.busy, 0)
	}
	b, _ := json.Marshal(out)
	fmt.Printf("\n@@RESULT %s\n", b)
}

type known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"` // known or fixed
	What     string `json:"what"`
}

func loadKnown() []known {
	var out []known
	b, e := os.ReadFile(filepath.Join(root(), "known_findings.json"))
	if e != nil {
		return nil
	}
	var doc struct {
		Findings []known `json:"findings"`
	}
	if json.Unmarshal(b, &doc) == nil {
		out = doc.Findings
	}
	return out
}

func parent(pr *Prop) {
	t := tier()
	t0 := time.Now()
	total := *fBudget
	if total == 0 {
		total = 560 * time.Second
		if t == Thorough {
			total = 3 * time.Hour
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	scratch, e := os.MkdirTemp("", "vh-"+pr.ID+"-")
	if e != nil {
		fmt.Fprintln(os.Stderr, e)
		os.Exit(2)
	}
	defer os.RemoveAll(scratch)
	os.Setenv("VH_SCRATCH", scratch)
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	var all Cov
	exhaustive := true
	var viols []violation
	type partEv struct {
		Name       string           `json:"name"`
		Bounds     string           `json:"bounds"`
		Space      int64            `json:"space_enumerated"`
		Cases      int64            `json:"cases"`
		States     int64            `json:"states"`
		Trans      int64            `json:"transitions"`
		Traces     int64            `json:"traces_validated"`
		Nontriv    int64            `json:"nontrivial"`
		Exhaustive bool             `json:"exhaustive"`
		WallS      float64          `json:"wall_s"`
		Counters   map[string]int64 `json:"counters,omitempty"`
	}
	var parts []partEv
	var samples []string
	np := 0
	for _, p := range pr.Parts {
		if *fPart == "" || p.Name == *fPart {
			np++
		}
	}
	left := np
	for _, p := range pr.Parts {
		if *fPart != "" && p.Name != *fPart {
			continue
		}
		rem := total - time.Since(t0)
		b := rem / time.Duration(left)
		if left > 1 {
			b = b * 2 // parts usually finish early; let one take more than its share
		}
		if b > rem {
			b = rem
		}
		if p.Budget != 0 && t == Quick && p.Budget < b {
			b = p.Budget
		}
		if b < 2*time.Second {
			b = 2 * time.Second
		}
		left--
		w := nw
		if p.Workers > 0 && p.Workers < w {
			w = p.Workers
		}
		if p.Serial {
			w = 1
		}
		tp := time.Now()
		outs := make([][]workerOut, w)
		bmPath := filepath.Join(scratch, p.Name+".bm")
		bm := mapBM(bmPath, true)
		os.Setenv("VH_BM", bmPath)
		var wg sync.WaitGroup
		for i := 0; i < w; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				outs[i] = superviseWorker(pr, p, i, w, b, filepath.Join(scratch, fmt.Sprintf("%s.%d", p.Name, i)))
			}(i)
		}
		wg.Wait()
		pe := partEv{Name: p.Name, Bounds: p.Desc, Exhaustive: true}
		var pc Cov
		for _, os := range outs {
			for _, o := range os {
				pc.merge(&o.Cov)
				if !o.Exhaustive {
					pe.Exhaustive = false
				}
				if o.Seen > pe.Space {
					pe.Space = o.Seen
				}
				viols = append(viols, o.Violations...)
				if len(samples) < 12 {
					for _, s := range o.Samples {
						samples = append(samples, p.Name+": "+s)
						if len(samples) >= 12 {
							break
						}
					}
				}
			}
		}
		if bm != nil {
			for _, x := range bm {
				pc.States += int64(bits.OnesCount64(x))
			}
			syscall.Munmap(unsafe.Slice((*byte)(unsafe.Pointer(&bm[0])), bmBits/8+4096))
			os.Remove(bmPath)
		}
		pe.Cases, pe.States, pe.Trans, pe.Traces, pe.Nontriv = pc.Cases, pc.States, pc.Trans, pc.Traces, pc.Nontriv
		pe.Counters = pc.Counters
		pe.WallS = time.Since(tp).Seconds()
		if !pe.Exhaustive {
			exhaustive = false
		}
		all.merge(&pc)
		parts = append(parts, pe)
		fmt.Printf("%s part %-14s cases=%d space=%d states=%d transitions=%d exhaustive=%v %.1fs\n", pr.ID, p.Name, pe.Cases, pe.Space, pe.States, pe.Trans, pe.Exhaustive, pe.WallS)
		// a violation was found: further parts only cost time
		stop := false
		for _, v := range viols {
			if v.Known == "" {
				stop = true
			}
		}
		if stop && !*fAll {
			exhaustive = false
			break
		}
	}
	// triage
	kn := loadKnown()
	listed := func(v *violation) bool {
		if v.Known == "" {
			return false
		}
		for _, k := range kn {
			if k.Property == pr.ID && k.ID == v.Known && k.Status == "known" {
				return true
			}
		}
		return false
	}
	repdir := filepath.Join(root(), "replays")
	var reported []map[string]string
	knownSeen := map[string]string{}
	exit := 0
	nrep := 0
	sort.SliceStable(viols, func(i, j int) bool { return len(viols[i].Case) < len(viols[j].Case) })
	for i := range viols {
		v := &viols[i]
		p := findPart(pr, v.Part)
		if listed(v) {
			if _, ok := knownSeen[v.Known]; !ok {
				knownSeen[v.Known] = v.Text
			}
			continue
		}
		if nrep >= 3 && !*fAll || nrep > 0 && time.Since(t0) > total {
			break
		}
		limit := hang(p)
		if !strings.Contains(v.Detail, "(stuck)") && limit < 4*time.Minute {
			limit = 4 * time.Minute
		}
		// confirm in fresh processes
		conf := 0
		text := ""
		tries := 5
		for k := 0; k < tries; k++ {
			bad, tx := runOnce(pr, p, v, limit)
			if bad {
				conf++
				text = tx
				if strings.Contains(tx, "(stuck)") {
					break // one confirmation of a hang is enough (it took long)
				}
			}
		}
		if conf == 0 {
			fmt.Printf("note: unconfirmed report dropped: part=%s %s: %s\n", v.Part, v.Text, firstLine(v.Detail))
			exhaustive = false
			continue
		}
		nrep++
		os.MkdirAll(repdir, 0o755)
		path := filepath.Join(repdir, fmt.Sprintf("%s-%s-%d.json", pr.ID, v.Part, nrep))
		v.Detail = text
		jb, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, jb, 0o644)
		fmt.Printf("part %s case %s\n%s\n", v.Part, v.Text, tail(text, 2500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
		reported = append(reported, map[string]string{"part": v.Part, "case": v.Text, "replay": path, "detail": firstLine(text)})
		exit = 1
	}
	for _, k := range kn {
		if s, ok := knownSeen[k.ID]; ok && k.Property == pr.ID {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s) e.g. %s\n", pr.ID, k.ID, k.What, firstLine(s))
		}
	}
	cov := map[string]interface{}{
		"samples":    samples,
		"exhaustive": exhaustive,
		"parts":      parts,
	}
	if pr.Rule != "" {
		cov["rule"] = pr.Rule
	}
	switch pr.Level {
	case "model_checking":
		cov["states"] = all.States
		cov["transitions"] = all.Trans
		cov["traces_validated_against_impl"] = all.Traces
	default:
		cov["evaluations"] = all.Cases
		cov["distinct_nontrivial"] = all.Nontriv
		if _, ok := cov["rule"]; !ok {
			cov["rule"] = "every case of the bounded space, enumerated once"
		}
	}
	ev := map[string]interface{}{
		"property":    pr.ID,
		"tier":        t.String(),
		"seed":        seed,
		"level":       pr.Level,
		"coverage":    cov,
		"wall_s":      time.Since(t0).Seconds(),
		"assumptions": append([]string{}, pr.Notes...),
	}
	if len(reported) > 0 {
		ev["violations"] = len(reported)
	} else {
		ev["violations"] = 0
	}
	os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
	jb, _ := json.MarshalIndent(ev, "", " ")
	if e := os.WriteFile(filepath.Join(root(), "evidence", pr.ID+".json"), jb, 0o644); e != nil {
		fmt.Fprintln(os.Stderr, e)
	}
	fmt.Printf("%s %s: cases=%d exhaustive=%v wall=%.1fs exit=%d\n", pr.ID, t, all.Cases, exhaustive, time.Since(t0).Seconds(), exit)
	os.RemoveAll(scratch)
	os.Exit(exit)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 400 {
		s = s[:400]
	}
	return s
}

// superviseWorker runs one worker, watching for death and lack of progress.
// After a death it resumes behind the offending case (a few times).
func superviseWorker(pr *Prop, p *Part, i, n int, budget time.Duration, shmPath string) []workerOut {
	var outs []workerOut
	end := time.Now().Add(budget)
	start := int64(0)
	_ = start
	for try := 0; try < 2; try++ {
		rem := time.Until(end)
		if rem < time.Second {
			break
		}
		sz := int(unsafe.Sizeof(shm{}))
		os.WriteFile(shmPath, make([]byte, sz), 0o600)
		f, e := os.OpenFile(shmPath, os.O_RDWR, 0)
		if e != nil {
			return outs
		}
		m, e := syscall.Mmap(int(f.Fd()), 0, sz, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
		f.Close()
		if e != nil {
			return outs
		}
		sm := (*shm)(unsafe.Pointer(&m[0]))
		cmd := p.command("-prop", pr.ID, "-part", p.Name, "-worker", fmt.Sprint(i), "-n", fmt.Sprint(n),
			"-shm", shmPath, "-tier", tier().String(), "-budget", rem.String(), "-out", root(), fmt.Sprintf("-all=%v", *fAll))
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		cmd.Env = append(cmd.Env, "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
		var eb limitBuf
		cmd.Stderr = &eb
		so, _ := cmd.StdoutPipe()
		if e := cmd.Start(); e != nil {
			syscall.Munmap(m)
			return outs
		}
		resCh := make(chan *workerOut, 1)
		go func() {
			rd := bufio.NewReaderSize(so, 1<<16)
			var res *workerOut
			for {
				line, e := rd.ReadString('\n')
				if strings.HasPrefix(line, "@@RESULT ") {
					var w workerOut
					if json.Unmarshal([]byte(line[9:]), &w) == nil {
						res = &w
					}
				}
				if e != nil {
					break
				}
			}
			resCh <- res
		}()
		lastSeq := int64(-1)
		lastMove := time.Now()
		stuck := false
		var res *workerOut
		tick := time.NewTicker(200 * time.Millisecond)
	wait:
		for {
			select {
			case res = <-resCh:
				break wait
			case <-tick.C:
				s := atomic.LoadInt64(&sm.seq)
				if s != lastSeq {
					lastSeq = s
					lastMove = time.Now()
				} else if atomic.LoadInt64(&sm.busy) == 1 && time.Since(lastMove) > hang(p) {
					stuck = true
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					res = <-resCh
					break wait
				}
			}
		}
		tick.Stop()
		werr := cmd.Wait()
		cur := append([]int32{}, sm.data[:atomic.LoadInt64(&sm.n)]...)
		started := atomic.LoadInt64(&sm.seq)
		syscall.Munmap(m)
		os.Remove(shmPath)
		if res != nil {
			outs = append(outs, *res)
			return outs
		}
		// died or stuck
		w := workerOut{Part: p.Name, Exhaustive: false}
		w.Cov.Cases = started
		if started == 0 {
			fmt.Printf("worker failed before its first case: %v\n%s\n", werr, eb.String())
			outs = append(outs, w)
			return outs
		}
		d := ""
		if stuck {
			d = fmt.Sprintf("no progress for %s (stuck)", hang(p))
		} else {
			d = fmt.Sprintf("process died: %v\n%s", werr, eb.String())
		}
		v := violation{Part: p.Name, Case: cur, Text: show(p, cur), Detail: d}
		if p.Known != nil {
			v.Known = p.Known(cur, fmt.Errorf("%s", d))
		}
		w.Violations = append(w.Violations, v)
		outs = append(outs, w)
		return outs
	}
	return outs
}

type limitBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b = append(l.b, p...)
	if len(l.b) > 1<<16 {
		l.b = append(l.b[:0], l.b[len(l.b)-(1<<15):]...)
	}
	return len(p), nil
}
func (l *limitBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return tail(string(l.b), 4000)
}

var _ io.Writer = (*limitBuf)(nil)

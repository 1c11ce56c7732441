// Command bench checks benchmark suites: creating, running, saving, reopening
// and comparing, on a build whose file system operations are counted and can
// be made to fail or to stop anywhere.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/go-air/gini/bench"

	"vh/eng"
)

// ------------------------------------------------------------- scratch

var caseNo int

// scratch makes an empty working directory for one case and goes there.
func scratch() string {
	caseNo++
	d := filepath.Join(eng.Scratch(), fmt.Sprintf("c%d", caseNo))
	if e := os.MkdirAll(d, 0o755); e != nil {
		panic(e)
	}
	if e := os.Chdir(d); e != nil {
		panic(e)
	}
	return d
}

func clean(d string) {
	os.Chdir(eng.Scratch())
	os.RemoveAll(d)
}

// tree lists everything below a directory, with contents.
func tree(d string) map[string]string {
	m := map[string]string{}
	filepath.Walk(d, func(p string, st os.FileInfo, e error) error {
		if e != nil {
			return nil
		}
		r, _ := filepath.Rel(d, p)
		switch {
		case st.IsDir():
			m[r] = "dir"
		case st.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[r] = "link " + l
		default:
			b, _ := os.ReadFile(p)
			m[r] = "file " + string(b)
		}
		return nil
	})
	return m
}

func treeDiff(a, b map[string]string, skip string) error {
	for k, v := range b {
		if k == skip || strings.HasPrefix(k, skip+"/") {
			continue
		}
		if o, ok := a[k]; !ok {
			return fmt.Errorf("%q appeared", k)
		} else if o != v {
			return fmt.Errorf("%q changed", k)
		}
	}
	for k := range a {
		if _, ok := b[k]; !ok {
			return fmt.Errorf("%q disappeared", k)
		}
	}
	return nil
}

// ------------------------------------------------------------- origin files

// file is an origin file: its path below the working directory, what is in
// it, and the extensions instances made from it keep.
type file struct{ path, text, ext string }

// A text says what a run on it does: what it prints, and how it ends.
var origins = []file{
	{"a.cnf", "exit 10\nx", ".cnf"},
	{"noext", "exit 20\n", ""},
	{"x.y/c", "exit 0\n# a dot in the directory", ""},
	{"d.cnf/e.gz", "exit 10\n# extensions in the directory", ".gz"},
	{"b.icnf.bz2", "exit 3\n", ".icnf.bz2"},
	{"dup/a.cnf", "exit 10\nx", ".cnf"},
	{" sp a.cnf ", "exit 20\n# blanks", ""},
	{".cnf", "exit 0\n", ".cnf"},
	{"é.v1.cnf.gz", "", ".cnf.gz"},
	{"new\nline.cnf", "exit 10\n# newline", ".cnf"},
	{"lnk.inccnf", "link a.cnf", ".inccnf"},
	{"missing.cnf", "", ".cnf"},
	{"dir.cnf", "", ".cnf"},
}

const (
	fileMissing = 11
	fileDir     = 12
	fileNewline = 9
	fileLink    = 10
)

func (f *file) content() string {
	if strings.HasPrefix(f.text, "link ") {
		return origins[0].text
	}
	return f.text
}

func putOrigins(d string) {
	for i, f := range origins {
		p := filepath.Join(d, f.path)
		os.MkdirAll(filepath.Dir(p), 0o755)
		switch i {
		case fileMissing:
		case fileDir:
			os.MkdirAll(p, 0o755)
		case fileLink:
			os.Symlink("a.cnf", p)
		default:
			if e := os.WriteFile(p, []byte(f.text), 0o644); e != nil {
				panic(e)
			}
		}
	}
}

// ------------------------------------------------------------- comparisons

// snap is what a suite says about itself, for comparison.
type snap struct {
	Insts, Map, Hashes []string
	Runs               map[string]string
	Order              []string
}

func showRun(r *bench.Run) string {
	var b strings.Builder
	fmt.Fprintf(&b, "name %q root %q cmd %q desc %q commit %q arch %q os %q cpus %d start %d timeouts %d %d\n",
		r.Name, filepath.Clean(r.Root), r.Cmd, r.Desc, r.Commit, r.Arch, r.Os, r.NumCPU, r.Start.UnixNano(), r.Timeout, r.InstTimeout)
	var ks []string
	for k, v := range r.Env {
		ks = append(ks, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(ks)
	fmt.Fprintf(&b, "env %v\n", ks)
	for _, i := range r.InstRuns {
		fmt.Fprintln(&b, showInst(i))
	}
	return b.String()
}

func showInst(i *bench.InstRun) string {
	return fmt.Sprintf("inst %d result %d start %d dur %d user %d sys %d error %q", i.Inst, i.Result, i.Start.UnixNano(), i.Dur, i.UDur, i.SDur, i.Error)
}

func shoot(s *bench.Suite) (sn snap, e error) {
	sn = snap{Insts: s.Insts, Map: s.Map, Hashes: s.Hashes, Runs: map[string]string{}}
	for _, r := range s.Runs {
		if _, ok := sn.Runs[r.Name]; ok {
			return sn, fmt.Errorf("two runs named %q", r.Name)
		}
		if r.Suite != s {
			return sn, fmt.Errorf("run %q belongs to another suite", r.Name)
		}
		for _, i := range r.InstRuns {
			if i.Run != r {
				return sn, fmt.Errorf("instance %d of run %q belongs to another run", i.Inst, r.Name)
			}
		}
		sn.Runs[r.Name] = showRun(r)
		sn.Order = append(sn.Order, r.Name)
	}
	if s.Len() != len(s.Insts) {
		return sn, fmt.Errorf("Len is %d for %d instances", s.Len(), len(s.Insts))
	}
	return
}

func sameList(what string, a, b []string) error {
	if len(a) != len(b) {
		return fmt.Errorf("%s: %d before, %d after: %q, %q", what, len(a), len(b), a, b)
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Errorf("%s %d: %q before, %q after", what, i, a[i], b[i])
		}
	}
	return nil
}

func same(a, b snap) error {
	if e := sameList("instances", a.Insts, b.Insts); e != nil {
		return e
	}
	if e := sameList("names", a.Map, b.Map); e != nil {
		return e
	}
	if e := sameList("hashes", a.Hashes, b.Hashes); e != nil {
		return e
	}
	for n, r := range a.Runs {
		o, ok := b.Runs[n]
		if !ok {
			return fmt.Errorf("run %q is gone", n)
		}
		if o != r {
			return fmt.Errorf("run %q before:\n%safter:\n%s", n, r, o)
		}
	}
	for n := range b.Runs {
		if _, ok := a.Runs[n]; !ok {
			return fmt.Errorf("run %q appeared", n)
		}
	}
	return nil
}

// right compares a suite with the files it was made from.
func right(s *bench.Suite, root string, names []string, fs []int) error {
	if e := sameList("names", names, s.Map); e != nil {
		return fmt.Errorf("as given and as recorded: %v", e)
	}
	if len(s.Insts) != len(fs) {
		return fmt.Errorf("%d instances for %d files: %q", len(s.Insts), len(fs), s.Insts)
	}
	if len(s.Hashes) != len(fs) {
		return fmt.Errorf("%d hashes for %d files: %q", len(s.Hashes), len(fs), s.Hashes)
	}
	seen := map[string]bool{}
	for i, f := range fs {
		n := s.Insts[i]
		if seen[n] {
			return fmt.Errorf("two instances named %q", n)
		}
		seen[n] = true
		b, e := os.ReadFile(filepath.Join(root, n))
		if e != nil {
			return fmt.Errorf("instance %d: %v", i, e)
		}
		if string(b) != origins[f].content() {
			return fmt.Errorf("instance %d (%s) contains %q instead of %q", i, n, b, origins[f].content())
		}
		if !strings.HasSuffix(n, origins[f].ext) || origins[f].ext == "" && strings.Contains(n, ".") {
			return fmt.Errorf("instance %d of %q is named %q, its extensions should be %q", i, origins[f].path, n, origins[f].ext)
		}
		h := sha256.Sum256([]byte(origins[f].content()))
		if s.Hashes[i] != hex.EncodeToString(h[:]) {
			return fmt.Errorf("hash %d is %q instead of %x", i, s.Hashes[i], h)
		}
	}
	return nil
}

// ------------------------------------------------------------- create

// Ways to name origin files and suites.
var (
	froms = []string{"", "./", "abs", "../up/"}
	roots = []string{"s", "abs", "deep/er/s", "./s.cnf"}
)

func createSuite(link bool, root string, names []string) (*bench.Suite, error) {
	if link {
		return bench.LinkSuite(root, names)
	}
	return bench.CreateSuite(root, names)
}

func runCreate(c []int32, cov *eng.Cov) error {
	link := c[0] != 0
	from, rt := froms[c[1]], roots[c[2]]
	d := scratch()
	defer clean(d)
	od := d
	if from == "../up/" {
		od = filepath.Join(d, "up")
	}
	putOrigins(od)
	wd := d
	if from == "../up/" {
		wd = filepath.Join(d, "wd")
		os.Mkdir(wd, 0o755)
		os.Chdir(wd)
	}
	if from == "abs" {
		from = od + "/"
	}
	if rt == "abs" {
		rt = filepath.Join(wd, "s")
	}
	var names []string
	var fs []int
	bad, mayFail := false, false
	for _, i := range c[3:] {
		fs = append(fs, int(i))
		names = append(names, from+origins[i].path)
		bad = bad || i == fileMissing || i == fileDir
		mayFail = mayFail || i == fileNewline
	}
	before := tree(d)
	given := append([]string{}, names...)
	s, e := createSuite(link, rt, names)
	cov.Trans++
	for i := range names {
		if names[i] != given[i] {
			return fmt.Errorf("the caller's list of names was changed")
		}
	}
	// the root, and the directories above it, are all that may be new
	ar := rt
	if !filepath.IsAbs(ar) {
		ar = filepath.Join(wd, rt)
	}
	rel, _ := filepath.Rel(d, ar)
	for p := filepath.Dir(rel); p != "."; p = filepath.Dir(p) {
		if _, ok := before[p]; !ok {
			before[p] = "dir"
		}
	}
	after := tree(d)
	for p := filepath.Dir(rel); p != "."; p = filepath.Dir(p) {
		after[p] = "dir" // may be there or not
	}
	if x := treeDiff(before, after, rel); x != nil {
		return fmt.Errorf("outside of the suite: %v", x)
	}
	if e != nil {
		if !bad && !mayFail {
			return fmt.Errorf("error: %v", e)
		}
		cov.Inc("refused")
		s2, e := bench.OpenSuite(rt)
		cov.Trans++
		if e == nil {
			if e := right(s2, rt, given, fs); e != nil {
				return fmt.Errorf("the suite that was refused opens, but: %v", e)
			}
		}
		return nil
	}
	if bad {
		return fmt.Errorf("created from files which cannot be read")
	}
	if e := right(s, rt, given, fs); e != nil {
		return fmt.Errorf("after creation: %v", e)
	}
	sn, e := shoot(s)
	if e != nil {
		return e
	}
	if !bench.IsSuiteDir(rt) {
		return fmt.Errorf("not taken for the directory of a suite")
	}
	reopen := func(rt string) error {
		s2, e := bench.OpenSuite(rt)
		cov.Trans++
		if e != nil {
			return fmt.Errorf("reopened: %v", e)
		}
		if s2.Root != rt {
			return fmt.Errorf("reopened: root %q instead of %q", s2.Root, rt)
		}
		sn2, e := shoot(s2)
		if e != nil {
			return fmt.Errorf("reopened: %v", e)
		}
		if e := same(sn, sn2); e != nil {
			return fmt.Errorf("reopened: %v", e)
		}
		if e := right(s2, rt, given, fs); e != nil {
			return fmt.Errorf("reopened: %v", e)
		}
		return nil
	}
	if e := reopen(rt); e != nil {
		return e
	}
	// again at the same place: refused, and nothing changes
	t := tree(ar)
	if _, e := createSuite(link, rt, names); e == nil {
		return fmt.Errorf("created a second time at the same place")
	}
	cov.Trans++
	if x := treeDiff(t, tree(ar), "?"); x != nil {
		return fmt.Errorf("the second creation was refused, but: %v", x)
	}
	// from elsewhere, and moved
	os.Mkdir(filepath.Join(d, "elsewhere"), 0o755)
	os.Chdir(filepath.Join(d, "elsewhere"))
	if e := reopen(ar); e != nil {
		return fmt.Errorf("from elsewhere: %v", e)
	}
	if e := os.Rename(ar, filepath.Join(d, "moved")); e != nil {
		return e
	}
	if !link {
		for i := range origins {
			os.RemoveAll(filepath.Join(od, origins[i].path))
		}
	}
	if e := reopen("../moved"); e != nil {
		return fmt.Errorf("moved: %v", e)
	}
	cov.Nontriv++
	cov.Traces++
	h := eng.NewH()
	h.S(strings.Join(sn.Insts, "/"))
	h.S(strings.Join(sn.Hashes, "/"))
	eng.State(uint64(h))
	return nil
}

func showFiles(c []int32) string {
	var ns []string
	for _, i := range c {
		ns = append(ns, origins[i].path)
	}
	return fmt.Sprintf("%q", ns)
}

func create() *eng.Part {
	return &eng.Part{
		Name: "create",
		Desc: fmt.Sprintf("suites of every list of up to 2 (thorough 3) of %d files (extensions, none, dots in directories, blanks, newlines, links, directories, missing), copied or linked, named in 4 ways, at 4 kinds of places (3 files: one way and place); compared with the files, reopened in place, from elsewhere and after a move (copies: after the files are gone)", len(origins)),
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := 0; n <= 3; n++ {
				ways := len(froms) * len(roots)
				c := make([]int32, 3+n)
				tot := 1
				for i := 0; i < n; i++ {
					tot *= len(origins)
				}
				for x := 0; x < tot; x++ {
					for i, y := 0, x; i < n; i++ {
						c[3+i] = int32(y % len(origins))
						y /= len(origins)
					}
					for w := 0; w < 2*ways; w++ {
						if n == 3 && w/2 != x%ways && (w != 0 || t.Pick(0, 1) == 0) || n == 3 && t.Pick(x%3, 0) != 0 {
							continue
						}
						c[0], c[1], c[2] = int32(w&1), int32(w/2%len(froms)), int32(w/2/len(froms))
						if !yield(append([]int32{}, c...)) {
							return
						}
					}
				}
			}
		},
		Run: runCreate,
		Show: func(c []int32) string {
			return fmt.Sprintf("%s from %q at %q: %s", []string{"copied", "linked"}[c[0]], froms[c[1]], roots[c[2]], showFiles(c[3:]))
		},
	}
}

// sizes: instance numbers keep their order at every width.
func sizes() *eng.Part {
	return &eng.Part{
		Name: "sizes",
		Desc: "suites of 0 to 130 (thorough 1050) files, copied or linked: every instance is the right file after reopening",
		Enum: func(t eng.Tier, yield func([]int32) bool) {
			for n := 0; n <= t.Pick(130, 1050); n++ {
				if n > 130 && n%97 > 1 && (n < 998 || n > 1003) {
					continue
				}
				for l := int32(0); l < 2; l++ {
					if !yield([]int32{l, int32(n)}) {
						return
					}
				}
			}
		},
		Run: func(c []int32, cov *eng.Cov) error {
			d := scratch()
			defer clean(d)
			putOrigins(d)
			var names []string
			var fs []int
			for i := 0; i < int(c[1]); i++ {
				f := (i*i + i/7) % fileNewline
				fs = append(fs, f)
				names = append(names, origins[f].path)
			}
			s, e := createSuite(c[0] != 0, "s", names)
			if e != nil {
				return e
			}
			if e := right(s, "s", names, fs); e != nil {
				return fmt.Errorf("after creation: %v", e)
			}
			s, e = bench.OpenSuite("s")
			if e != nil {
				return e
			}
			cov.Trans += int64(c[1])
			if e := right(s, "s", names, fs); e != nil {
				return fmt.Errorf("reopened: %v", e)
			}
			cov.Traces++
			cov.Nontriv++
			eng.State(uint64(c[1]))
			return nil
		},
	}
}

// ------------------------------------------------------------- main

func main() {
	log.SetOutput(ioutil.Discard)
	os.Setenv("VH_EQ", "a=b=c")
	os.Setenv("VH_NL", "line one\nline=two\\n\n")
	os.Setenv("VH_EMPTY", "")
	eng.Main(&eng.Prop{ID: "C27", Level: "model_checking",
		Rule:  "a case is non-trivial if there is something to compare after reopening",
		Parts: []*eng.Part{create(), sizes(), runsPart(), crash(), reports(), selectPart(), command()},
		Notes: []string{"a crash is the end of a process between or within its file system operations, in program order; what a file system makes of a power failure is not covered", "the times recorded are compared before and after, not judged"},
	})
}

From bb832dcf2273dbddb9d97fa0840860fe9bcdecd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 01/75] fix: keep the problem unsat once a clause is false at
 level 0

A conflict at level 0 was put through conflict analysis by the next Solve or
Test, which learned a clause with the null literal and forgot the conflict, so
a second Solve ended in log.Fatal or a wrong answer.
---
 internal/xo/cgc.go |  3 +++
 internal/xo/s.go   | 23 ++++++++++++++++++++---
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..c169526 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -192,6 +192,9 @@ func (c *Cgc) CompactCDat(cdb *Cdb) (int, int) {
 func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
+	if bot, ok := rlm[cdb.Bot]; ok && bot != CNull {
+		cdb.Bot = bot
+	}
 	// reasons
 	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
 	// watches
diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..677885a 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -228,7 +228,7 @@ func (s *S) Solve() int {
 		if x != CNull {
 			// conflict
 			if trail.Level <= aLevel {
-				s.x = x
+				s.conflict(x)
 				s.stUnsat++
 				return -1
 			}
@@ -424,7 +424,11 @@ func (s *S) Untest() int {
 	}
 	s.Trail.backWithLates(lastTestLevel)
 	if x := trail.Prop(); x != CNull {
-		s.x = x
+		s.conflict(x)
+		return -1
+	}
+	if s.Cdb.Bot != CNull {
+		s.x = s.Cdb.Bot
 		return -1
 	}
 	s.x = CNull
@@ -639,6 +643,10 @@ func (s *S) solveInit() int {
 func (s *S) cleanupSolve() z.C {
 	trail := s.Trail
 	for s.x != CNull {
+		if trail.Level == 0 {
+			// nothing to derive, no assumption can resolve this conflict.
+			s.Cdb.Bot = s.x
+		}
 		if s.Cdb.Bot != CNull { // Cdb.Bot is always checked in makeAssumptions, true empty clause.
 			s.x = CNull
 			break
@@ -664,6 +672,15 @@ func (s *S) cleanupSolve() z.C {
 	return CNull
 }
 
+// conflict records x as the last conflict.  A clause which is false at level 0
+// is as good as the empty clause: the problem is unsat from now on.
+func (s *S) conflict(x z.C) {
+	s.x = x
+	if s.Trail.Level == 0 {
+		s.Cdb.Bot = x
+	}
+}
+
 func (s *S) lastTestLevel() int {
 	if len(s.testLevels) > 0 {
 		return s.testLevels[len(s.testLevels)-1]
@@ -686,7 +703,7 @@ func (s *S) makeAssumptions() int {
 		return -1
 	}
 	if x := trail.Prop(); x != CNull {
-		s.x = x
+		s.conflict(x)
 		return -1
 	}
 	vals := s.Vars.Vals
-- 
2.43.0


From b0c7ab391e97afc2b670d4176591b50e62b4d09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:41 +0000
Subject: [PATCH 02/75] fix: a failed Test keeps its assumptions in force for
 Solve

Solve after a Test which returned -1 answered without the tested assumptions
and could return 1, although tested assumptions hold until Untest.
---
 internal/xo/s.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 677885a..55beb56 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -46,6 +46,7 @@ type S struct {
 	// keeps level of start of each test (before assumptions)
 	testLevels   []int
 	endTestLevel int
+	testFailed   bool // last Test() returned -1 and was not yet undone by Untest()
 	// assumptionLevel can be > endTestLevel for untested assumptions
 	assumptLevel int
 	assumes      []z.Lit // only last set of requested assumptions before solve/test.
@@ -154,6 +155,7 @@ func (s *S) Copy() *S {
 	other.testLevels = make([]int, len(s.testLevels), cap(s.testLevels))
 	copy(other.testLevels, s.testLevels)
 	other.endTestLevel = s.endTestLevel
+	other.testFailed = s.testFailed
 	other.assumptLevel = s.assumptLevel
 	other.assumes = make([]z.Lit, len(s.assumes), cap(s.assumes))
 	copy(other.assumes, s.assumes)
@@ -210,6 +212,10 @@ func (s *S) Solve() int {
 		s.assumes = s.assumes[:0]
 	}()
 	trail := s.Trail
+	if s.testFailed {
+		// the tested assumptions hold until Untest() and are inconsistent.
+		return -1
+	}
 	if r := s.solveInit(); r != 0 {
 		return r
 	}
@@ -359,6 +365,7 @@ func (s *S) Test(ms []z.Lit) (res int, ns []z.Lit) {
 	trail := s.Trail
 	start := trail.Tail
 	if r := s.makeAssumptions(); r == -1 {
+		s.testFailed = true
 		ns = nil
 		res = -1
 		return
@@ -418,6 +425,7 @@ func (s *S) Untest() int {
 	lastTestLevel := s.lastTestLevel()
 	s.testLevels = s.testLevels[:len(s.testLevels)-1]
 	s.endTestLevel = lastTestLevel
+	s.testFailed = false
 	if x := s.cleanupSolve(); x != CNull {
 		s.x = x
 		return -1
-- 
2.43.0


From e1e7b7f3647bb388b3f1a38ee72e12af8f70de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:43 +0000
Subject: [PATCH 03/75] fix: activating a clause which is already true is not
 an error

Activate and ActivateWith panicked when the clause was satisfied by facts
known at level 0; the interface only excludes clauses which are empty.
---
 internal/xo/active.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..6a6a323 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -37,7 +37,7 @@ func (a *Active) ActivateWith(act z.Lit, s *S) {
 		panic("activated empty clause")
 	}
 	if loc == CInf {
-		panic("activated trivially true clause")
+		// trivially true: there is nothing to activate.
 		return
 	}
 	// add occs
-- 
2.43.0


From e72cb42cd967ae717f7e313fada9f95a7f1beca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:00 +0000
Subject: [PATCH 04/75] fix: compaction must not drop entries of the reasons
 table

The table is indexed by variable; when a removed clause was the reason of a
fact at level 0 (possible with Deactivate) its entry was deleted and all later
entries moved to the wrong variables.
---
 internal/xo/cgc.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index c169526..112c092 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -195,8 +195,13 @@ func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	if bot, ok := rlm[cdb.Bot]; ok && bot != CNull {
 		cdb.Bot = bot
 	}
-	// reasons
-	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
+	// reasons, indexed by variable: no entry may be dropped.
+	reasons := cdb.Vars.Reasons
+	for v, p := range reasons {
+		if q, ok := rlm[p]; ok {
+			reasons[v] = q
+		}
+	}
 	// watches
 	c.relocateWatches(cdb, rlm)
 	// activation occs
-- 
2.43.0


From eeb97d2df8d88957339b782aa784b301a4d62e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 05/75] fix: do not recycle activation literals which are fixed

An activation literal whose clause is inconsistent with the problem becomes
false at level 0.  Deactivate put it up for reuse, so that the next clause
activated with it could never be activated (or Activate panicked).
---
 internal/xo/active.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index 6a6a323..b74d860 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -18,15 +18,15 @@ func newActive(vcap int) *Active {
 }
 
 func (a *Active) Lit(s *S) z.Lit {
-	n := len(a.Free)
-	var act z.Lit
-	if n != 0 {
-		act = a.Free[n-1]
+	for n := len(a.Free); n != 0; n = len(a.Free) {
+		act := a.Free[n-1]
 		a.Free = a.Free[:n-1]
-	} else {
-		act = s.Lit()
+		if s.Vars.Vals[act] == 0 {
+			return act
+		}
+		// fixed at level 0 while in use, it can never be true again.
 	}
-	return act
+	return s.Lit()
 }
 
 func (a *Active) ActivateWith(act z.Lit, s *S) {
-- 
2.43.0


From 9a605aa58762e1816cd73203cbf4c1118a6d9332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 06/75] fix: writing a solver without clauses divided by zero

---
 internal/xo/cdat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..07e1f2d 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -179,7 +179,7 @@ func (c *CDat) Load(p z.C, ms []z.Lit) []z.Lit {
 
 // Func Forall applies f to every clause in the store.
 func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
-	ns := make([]z.Lit, 0, c.ClsLen*2/c.Len)
+	ns := make([]z.Lit, 0, 32)
 	i := 0
 	q := z.C(1)
 	for q < z.C(c.Len) {
-- 
2.43.0


From c1d9da106f6eb14d685d7e15d5c25fa0730e2669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 07/75] fix: Write writes the added clauses and counts them
 right

The header gave the number of added clauses while learned clauses, and
deactivated ones not yet compacted, were written as well.
---
 internal/xo/cdb.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..8646399 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -303,8 +303,20 @@ func (c *Cdb) SetTracer(t Tracer) {
 	c.Tracer = t
 }
 
+// Write writes the added clauses in dimacs format.
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	// removed clauses stay in c.Added until they are compacted
+	rmd := make(map[z.C]bool, len(c.gc.rmq))
+	for _, p := range c.gc.rmq {
+		rmd[p] = true
+	}
+	ps := make([]z.C, 0, len(c.Added))
+	for _, p := range c.Added {
+		if !rmd[p] {
+			ps = append(ps, p)
+		}
+	}
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(ps)))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
@@ -313,7 +325,17 @@ func (c *Cdb) Write(w io.Writer) error {
 			return e
 		}
 	}
-	return c.CDat.Dimacs(w)
+	for _, p := range ps {
+		for _, m := range c.Lits(p, nil) {
+			if _, e := fmt.Fprintf(w, "%d ", m.Dimacs()); e != nil {
+				return e
+			}
+		}
+		if _, e := fmt.Fprintf(w, "0\n"); e != nil {
+			return e
+		}
+	}
+	return nil
 }
 
 func (c *Cdb) String() string {
-- 
2.43.0


From e71decf145737d1985e4e1431ef791cb7c0d242e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 08/75] fix: Copy keeps the decision and clause activity state
 and the gc schedule

---
 internal/xo/cdat.go  | 1 +
 internal/xo/cgc.go   | 4 ++--
 internal/xo/guess.go | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index 07e1f2d..a821967 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -227,6 +227,7 @@ func (c *CDat) CopyTo(other *CDat) {
 	other.Len = c.Len
 	other.Cap = c.Cap
 	other.ClsLen = c.ClsLen
+	other.bumpInc = c.bumpInc
 	copy(other.D, c.D)
 }
 
diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 112c092..eaa717e 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -52,8 +52,8 @@ func (c *Cgc) Copy() *Cgc {
 	*l = *c.luby
 	other := &Cgc{
 		luby:      l,
-		factor:    2048,
-		stopWatch: 2048 * l.Next(),
+		factor:    c.factor,
+		stopWatch: c.stopWatch,
 		rmq:       make([]z.C, len(c.rmq), cap(c.rmq)),
 		rmLits:    c.rmLits,
 		rmd:       c.rmd}
diff --git a/internal/xo/guess.go b/internal/xo/guess.go
index 7816467..2b88abe 100644
--- a/internal/xo/guess.go
+++ b/internal/xo/guess.go
@@ -211,6 +211,14 @@ func (g *Guess) Copy() *Guess {
 		vhp:       make([]z.Var, len(g.vhp), cap(g.vhp)),
 		heat:      make([]float64, len(g.heat), cap(g.heat)),
 		cache:     make([]int8, len(g.cache), cap(g.cache)),
+
+		decays:        g.decays,
+		restartDecays: g.restartDecays,
+		decayMax:      g.decayMax,
+		decayMin:      g.decayMin,
+		decayMaxMax:   g.decayMaxMax,
+		decayMaxDecay: g.decayMaxDecay,
+
 		bumpInc:   g.bumpInc,
 		bumpDecay: g.bumpDecay,
 		bumpLim:   g.bumpLim}
-- 
2.43.0


From 005e376e6fde57d635a6571d7a716895c7f6cc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 09/75] fix: a Try deadline must not stop later Solve calls

---
 internal/xo/s.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 55beb56..9ba1740 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -197,6 +197,10 @@ func (s *S) Try(dur time.Duration) int {
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
+	defer func() {
+		// the deadline is for this call only.
+		s.deadline = s.startTime
+	}()
 	return s.Solve()
 }
 
-- 
2.43.0


From 0e4c02dbf593e0a663eea47a4d4716274d4bbf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 10/75] fix: Try without time consumes the assumptions like any
 other Try

---
 internal/xo/s.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9ba1740..6bdb1d1 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -193,6 +193,7 @@ func (s *S) String() string {
 
 func (s *S) Try(dur time.Duration) int {
 	if dur <= 0 {
+		s.assumes = s.assumes[:0] // as every call to Solve
 		return 0
 	}
 	s.startTime = time.Now()
-- 
2.43.0


From cc67ed338d24fb573ca280dca7ff07ad93fd29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 11/75] fix: a copied circuit keeps finding its gates

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..f46cc61 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -68,7 +68,7 @@ func (c *C) ToCnf(dst inter.Adder) {
 
 // Copy makes a copy of `c`.
 func (c *C) Copy() *C {
-	ns := make([]node, len(c.nodes))
+	ns := make([]node, len(c.nodes), cap(c.nodes)) // strash depends on the capacity
 	st := make([]uint32, len(c.strash))
 	copy(ns, c.nodes)
 	copy(st, c.strash)
-- 
2.43.0


From 1fe13b8b38536af58821a923277723f62247e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 12/75] fix: Eval64 gives the constant its value in all 64
 lanes

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index f46cc61..4701224 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -228,7 +228,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = (1 << 64) - 1
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From 7e03a7fe82788c7682e9d5acaa40fd93080de35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 13/75] fix: the constant is not an input position

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 4701224..166fcee 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -186,7 +186,7 @@ func (c *C) Lit() z.Lit {
 func (c *C) InPos(dst []int) []int {
 	dst = dst[:0]
 	for i, n := range c.nodes {
-		if i == 0 {
+		if i <= 1 { // 1 is the constant
 			continue
 		}
 		if n.a == z.LitNull && n.b == z.LitNull {
-- 
2.43.0


From fd95d61f8c808acd04ba9514b82b37fca5ca9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 14/75] fix: aiger.Copy copies the inputs and outputs

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..dceaaea 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -93,11 +93,15 @@ func Copy(a *T) *T {
 	}
 	result := &T{
 		S:           a.S.Copy(),
+		Inputs:      make([]z.Lit, len(a.Inputs)),
+		Outputs:     make([]z.Lit, len(a.Outputs)),
 		Bad:         make([]z.Lit, len(a.Bad)),
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
 		Fair:        make([]z.Lit, len(a.Fair)),
 		symbols:     make(map[byte]map[int]string, len(a.symbols))}
+	copy(result.Inputs, a.Inputs)
+	copy(result.Outputs, a.Outputs)
 	copy(result.Bad, a.Bad)
 	copy(result.Constraints, a.Constraints)
 	copy(result.Fair, a.Fair)
-- 
2.43.0


From 863654f48d5fc831b8b214c6241fe09dc2cf494c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 15/75] fix: aiger names need an existing index

---
 logic/aiger/aiger.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index dceaaea..a63754c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -128,7 +128,7 @@ func (a *T) Sys() *logic.S {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameInput(index int, nm string) error {
-	if index < 0 || index > len(a.Inputs) {
+	if index < 0 || index >= len(a.Inputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -150,7 +150,7 @@ func (a *T) InputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameLatch(index int, nm string) error {
-	if index < 0 || index > len(a.Latches) {
+	if index < 0 || index >= len(a.Latches) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -182,7 +182,7 @@ func (a *T) NewIn() z.Lit {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameOutput(index int, nm string) error {
-	if index < 0 || index > len(a.Outputs) {
+	if index < 0 || index >= len(a.Outputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -204,7 +204,7 @@ func (a *T) OutputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameBad(index int, nm string) error {
-	if index < 0 || index > len(a.Bad) {
+	if index < 0 || index >= len(a.Bad) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -226,7 +226,7 @@ func (a *T) BadName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameConstraint(index int, nm string) error {
-	if index < 0 || index > len(a.Constraints) {
+	if index < 0 || index >= len(a.Constraints) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -248,7 +248,7 @@ func (a *T) ConstraintName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameJustice(index int, nm string) error {
-	if index < 0 || index > len(a.Justice) {
+	if index < 0 || index >= len(a.Justice) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -270,7 +270,7 @@ func (a *T) JusticeName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameFair(index int, nm string) error {
-	if index < 0 || index > len(a.Fair) {
+	if index < 0 || index >= len(a.Fair) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
-- 
2.43.0


From c4054c0b7f014f4d5985a62948e05e0a60a52c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 16/75] fix: aiger writers write true as 1 and false as 0

---
 logic/aiger/aiger.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index a63754c..561d84f 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -607,6 +607,9 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 
 // get an aiger literal for a gini literal for writer
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
+	if m == abw.trueLit { // the id of the constant is 0, which is false
+		return 1
+	}
 	v := m.Var()
 	a := abw.idMap[v]
 	if a == 0 || m.IsPos() {
@@ -1410,11 +1413,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
-	if m == t {
+	if m == t.Not() {
 		_, err := w.WriteString("0")
 		return err
 	}
-	if m == t.Not() {
+	if m == t {
 		_, err := w.WriteString("1")
 		return err
 	}
-- 
2.43.0


From 1eeebcb4108986544ce8d441b8050b729a418eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 17/75] fix: aiger writers write every and gate

---
 logic/aiger/aiger.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 561d84f..c98b0b3 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -392,6 +392,9 @@ func (a *T) WriteBinary(w io.Writer) error {
 		dfs.post(ma...)
 	}
 	dfs.post(a.Fair...)
+	for i := 1; i < a.Len(); i++ { // the header counts all ands
+		dfs.post(a.At(i))
+	}
 	dfs.reset()
 
 	// Stage2: write the remaining data.  Latches
@@ -435,10 +438,14 @@ func (a *T) WriteBinary(w io.Writer) error {
 	dfs.post(a.Outputs...)
 	dfs.post(nexts...)
 	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
 	for _, ma := range a.Justice {
 		dfs.post(ma...)
 	}
 	dfs.post(a.Fair...)
+	for i := 1; i < a.Len(); i++ {
+		dfs.post(a.At(i))
+	}
 	a.writeSymtab(bw)
 	// finally write comment
 	writeComment(bw)
@@ -588,6 +595,9 @@ func (a *T) writeAsciiAnds(w *bufio.Writer) {
 	}
 	dfs.post(a.Fair...)
 	dfs.post(nexts...)
+	for i := 1; i < a.Len(); i++ { // the header counts all ands
+		dfs.post(a.At(i))
+	}
 }
 
 // state information for binary writer
-- 
2.43.0


From 48de5cbdee18fcfd6c3c135eee9ef75685ae6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:40 +0000
Subject: [PATCH 18/75] fix: aiger binary writer orders the children by their
 aiger ids

---
 logic/aiger/aiger.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c98b0b3..40e8717 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -641,6 +641,9 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	c1, c0 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-- 
2.43.0


From 571bfd75afa94b50b0a1feb77c64086ce102f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:34 +0000
Subject: [PATCH 19/75] fix: aiger readers keep the sign of gates and know the
 constant

---
 logic/aiger/aiger.go | 93 +++++++++++++++-----------------------------
 1 file changed, 31 insertions(+), 62 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 40e8717..379ec79 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -659,8 +659,6 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 // etc.
 type aigAnd struct {
 	children [2]uint
-	defined  bool
-	mapped   bool
 	dfsColor uint8
 }
 
@@ -680,8 +678,9 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
-	AigAnds        []aigAnd
+	varMap         map[uint]z.Lit // from aiger variable
+	AigAnds        map[uint]*aigAnd
+	andOrder       []uint // keys of AigAnds
 }
 
 func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
@@ -695,33 +694,29 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		varMap:         make(map[uint]z.Lit),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.varMap[0] = a.S.F
 	return abr
 }
 
+// the sign of m counts: an and gate may simplify to a negated literal.
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	if aigerLit&1 != 0 {
+		m = m.Not()
+	}
+	abr.varMap[aigerLit>>1] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
-	if aigerLit < 2 {
-		if aigerLit == 1 {
-			return abr.S.T
-		}
-		return abr.S.F
-	}
-	v := aigerLit >> 1
-
-	rv := abr.varMap[v]
-	if rv == 0 {
+	m, ok := abr.varMap[aigerLit>>1]
+	if !ok {
 		return z.LitNull
 	}
 	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
+		return m.Not()
 	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
@@ -1030,7 +1025,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 }
 
 func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) error {
-	aigrdr.AigAnds = make([]aigAnd, hdr.Max+1, hdr.Max+1)
+	aigrdr.AigAnds = make(map[uint]*aigAnd)
 	var i uint
 	for i = 0; i < hdr.And; i++ {
 		g, gErr := readUint(r)
@@ -1087,13 +1082,11 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 			return err
 		}
 		// define the gate in terms of AigAnds
-		aa := &aigrdr.AigAnds[int(g>>1)]
-		if aa.defined {
+		if aigrdr.AigAnds[g>>1] != nil {
 			return AndMultiplyDefined
 		}
-		aa.defined = true
-		aa.children[0] = c0
-		aa.children[1] = c1
+		aigrdr.AigAnds[g>>1] = &aigAnd{children: [2]uint{c0, c1}}
+		aigrdr.andOrder = append(aigrdr.andOrder, g>>1)
 	}
 	if err := aigrdr.mapAnds(); err != nil {
 		return err
@@ -1102,22 +1095,9 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 }
 
 func (aigrdr *aigerReader) mapAnds() error {
-	for _, m := range aigrdr.AigInputs {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
-	}
-	for _, m := range aigrdr.AigLatches {
-		ag := &aigrdr.AigAnds[int(m>>1)]
-		ag.defined = true
-		ag.mapped = true
-	}
-	for i := 0; i < len(aigrdr.AigAnds); i++ {
-		ag := &aigrdr.AigAnds[i]
-		if ag.defined && !ag.mapped {
-			if err := aigrdr.mapAndsRec(ag, uint(i*2)); err != nil {
-				return err
-			}
+	for _, v := range aigrdr.andOrder {
+		if err := aigrdr.mapAndsRec(aigrdr.AigAnds[v], v*2); err != nil {
+			return err
 		}
 	}
 	return nil
@@ -1127,31 +1107,20 @@ func (aigrdr *aigerReader) mapAndsRec(ag *aigAnd, aig uint) error {
 	switch ag.dfsColor {
 	case 0:
 		ag.dfsColor = 1
-		c0, c1 := ag.children[0], ag.children[1]
-		ag0 := &aigrdr.AigAnds[int(c0>>1)]
-		if !ag0.defined {
-			return UndefinedLit
-		}
-		if !ag0.mapped {
-			if err := aigrdr.mapAndsRec(ag0, c0); err != nil {
-				return err
+		var ms [2]z.Lit
+		for i, c := range ag.children {
+			if agc := aigrdr.AigAnds[c>>1]; agc != nil {
+				if err := aigrdr.mapAndsRec(agc, c&^1); err != nil {
+					return err
+				}
 			}
-		}
-		m := aigrdr.litFor(c0)
-
-		ag1 := &aigrdr.AigAnds[int(c1>>1)]
-		if !ag1.defined {
-			return UndefinedLit
-		}
-		if !ag1.mapped {
-			if err := aigrdr.mapAndsRec(ag1, c1); err != nil {
-				return err
+			ms[i] = aigrdr.litFor(c)
+			if ms[i] == z.LitNull {
+				return UndefinedLit
 			}
 		}
-		n := aigrdr.litFor(c1)
-		aigrdr.mapLit(aig, aigrdr.And(m, n))
+		aigrdr.mapLit(aig, aigrdr.And(ms[0], ms[1]))
 		ag.dfsColor = 2
-		ag.mapped = true
 	case 1:
 		return CombLoop
 	case 2:
-- 
2.43.0


From f9484b5cbe6cb26b4a746089b3ed9a10437d0067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 20/75] fix: aiger ascii reader knows the unknown reset value
 of any latch

---
 logic/aiger/aiger.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 379ec79..19183b1 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -787,8 +787,10 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 	var i uint
 	for i = 0; i < hdr.Latch; i++ {
 		var m z.Lit
+		latch := (hdr.In + i + 1) * 2
 		if ascii {
-			latch, latchErr := readUint(br)
+			var latchErr error
+			latch, latchErr = readUint(br)
 			if latchErr != nil {
 				return latchErr
 			}
@@ -809,9 +811,8 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				return UnexpectedChar
 			}
 		} else {
-			g := (hdr.In + i + 1) * 2
 			m = abr.S.Latch(abr.S.F)
-			abr.mapLit(g, m)
+			abr.mapLit(latch, m)
 		}
 		nxt, errNxt := readUint(br)
 		if errNxt != nil {
@@ -841,7 +842,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				abr.SetInit(m, abr.S.F)
 			} else if ini == 1 {
 				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
+			} else if ini == latch {
 				abr.SetInit(m, 0)
 			} else {
 				return InvalidLatchInit
-- 
2.43.0


From 433214411e2e39383c271c46a70a09dc5254f4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 21/75] fix: aiger ascii reader rejects literals defined twice
 or out of range

---
 logic/aiger/aiger.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 19183b1..9b03233 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -35,6 +35,7 @@ var (
 	CombLoop           = errors.New("combinational logic has a loop")
 	AndMultiplyDefined = errors.New("and gate multiply defined")
 	UndefinedLit       = errors.New("literal not defined")
+	LitMultiplyDefined = errors.New("literal multiply defined")
 )
 
 // Type Aiger contains the information read from or written to
@@ -794,9 +795,15 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
+			if abr.litFor(latch) != z.LitNull {
+				return LitMultiplyDefined
+			}
 			abr.AigLatches = append(abr.AigLatches, latch)
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(latch, m)
@@ -870,6 +877,9 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 		if in&1 != 0 {
 			return SignedInput
 		}
+		if aigrdr.litFor(in) != z.LitNull {
+			return LitMultiplyDefined
+		}
 		m := aigrdr.S.Lit()
 		aigrdr.Inputs = append(aigrdr.Inputs, m)
 		aigrdr.mapLit(in, m)
@@ -1083,7 +1093,7 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 			return err
 		}
 		// define the gate in terms of AigAnds
-		if aigrdr.AigAnds[g>>1] != nil {
+		if aigrdr.AigAnds[g>>1] != nil || aigrdr.litFor(g) != z.LitNull {
 			return AndMultiplyDefined
 		}
 		aigrdr.AigAnds[g>>1] = &aigAnd{children: [2]uint{c0, c1}}
-- 
2.43.0


From 16e487a8a628d82380ff0543559a18c41323a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 22/75] fix: aiger binary reader rejects gates in terms of
 themselves

---
 logic/aiger/aiger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 9b03233..b8573cf 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1016,7 +1016,7 @@ func (aigrdr *aigerReader) readBinaryAnds(hdr *aigerHeader, r *bufio.Reader) err
 		if err0 != nil {
 			return err0
 		}
-		if delta0 > id {
+		if delta0 == 0 || delta0 > id {
 			return BadDeltaEncoding
 		}
 		c0 := id - delta0
-- 
2.43.0


From 4d834b730943fd3fc56d59ef59752d75a03e4a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 23/75] fix: aiger readers report read errors and over-long
 deltas

---
 logic/aiger/aiger.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index b8573cf..c9e849c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1147,6 +1147,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
@@ -1192,18 +1195,14 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 
 func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	for {
-		comment, err := r.ReadString('\n')
 		// TBD: add comments api
-		if len(comment) > 0 {
-			if err == io.EOF {
-				return PrematureEOF
-			}
-			if err != nil {
-				return err
-			}
-		} else if err == io.EOF {
+		_, err := r.ReadString('\n')
+		if err == io.EOF {
 			return nil
 		}
+		if err != nil {
+			return err
+		}
 	}
 	panic("unreachable")
 }
@@ -1443,6 +1442,12 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
+		if i >= 4 && (i > 4 || b > 0xf) { // more than 32 bits
+			return 0, BadDeltaEncoding
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From 801b3fdb06b35eb423e654575f919f5ed51a8878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 24/75] fix: aiger readers check the header counts and the
 range of numbers

---
 logic/aiger/aiger.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c9e849c..bdf7a1c 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -8,6 +8,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"strings"
 
@@ -1314,6 +1315,11 @@ func readHeader(r *bufio.Reader) (*aigerHeader, error) {
 	result.Constraint = counts[6]
 	result.Justice = counts[7]
 	result.Fair = counts[8]
+	// every variable has an index up to Max, and all literals fit 32 bits.
+	n := uint64(result.In) + uint64(result.Latch) + uint64(result.And)
+	if result.Max >= 1<<30 || n > uint64(result.Max) {
+		return nil, BadHeader
+	}
 	return result, nil
 }
 
@@ -1389,6 +1395,9 @@ func readUint(r *bufio.Reader) (uint, error) {
 			return 0, e
 		}
 		if b >= '0' && b <= '9' {
+			if result > (math.MaxUint32-9)/10 {
+				return 0, BadUInt
+			}
 			result *= 10
 			result += uint(b - '0')
 			first = false
-- 
2.43.0


From 1bc51d8d5e9d13e5d9e168ff2323f72036c26368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 25/75] fix: aiger readers do not allocate what a header only
 announces

---
 logic/aiger/aiger.go | 59 +++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index bdf7a1c..ae99830 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -467,7 +467,7 @@ func ReadAscii(r io.Reader) (*T, error) {
 	if hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(int(sizeHint(hdr.Max + 1)))
 	aigrdr := makeAigerReader(aiger, hdr)
 	if err := aigrdr.readAsciiInputs(hdr, br); err != nil {
 		return nil, err
@@ -515,7 +515,7 @@ func ReadBinary(r io.Reader) (*T, error) {
 	if !hdr.Binary {
 		return nil, BinaryMismatch
 	}
-	aiger := Make(int(hdr.Max + 1))
+	aiger := Make(int(sizeHint(hdr.Max + 1)))
 	aigrdr := makeAigerReader(aiger, hdr)
 	var i uint
 	for i = 0; i < hdr.In; i++ {
@@ -685,17 +685,25 @@ type aigerReader struct {
 	andOrder       []uint // keys of AigAnds
 }
 
+// sizeHint bounds what is allocated on the word of a header.
+func sizeHint(n uint) uint {
+	if n > 1<<16 {
+		return 1 << 16
+	}
+	return n
+}
+
 func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 	abr := &aigerReader{
 		T:              a,
-		AigInputs:      make([]uint, 0, hdr.In),
-		AigLatches:     make([]uint, 0, hdr.Latch),
-		AigLatchNexts:  make([]uint, 0, hdr.Latch),
-		AigOutputs:     make([]uint, 0, hdr.Out),
-		AigBad:         make([]uint, 0, hdr.Bad),
-		AigConstraints: make([]uint, 0, hdr.Constraint),
-		AigJustice:     make([][]uint, 0, hdr.Justice),
-		AigFair:        make([]uint, 0, hdr.Fair),
+		AigInputs:      make([]uint, 0, sizeHint(hdr.In)),
+		AigLatches:     make([]uint, 0, sizeHint(hdr.Latch)),
+		AigLatchNexts:  make([]uint, 0, sizeHint(hdr.Latch)),
+		AigOutputs:     make([]uint, 0, sizeHint(hdr.Out)),
+		AigBad:         make([]uint, 0, sizeHint(hdr.Bad)),
+		AigConstraints: make([]uint, 0, sizeHint(hdr.Constraint)),
+		AigJustice:     make([][]uint, 0, sizeHint(hdr.Justice)),
+		AigFair:        make([]uint, 0, sizeHint(hdr.Fair)),
 		varMap:         make(map[uint]z.Lit),
 		AigAnds:        nil}
 	abr.varMap[0] = a.S.F
@@ -761,14 +769,16 @@ func (aigrdr *aigerReader) commit(ascii bool) error {
 		}
 		aigrdr.Constraints = append(aigrdr.Constraints, m)
 	}
-	for i, ua := range aigrdr.AigJustice {
-		for j, u := range ua {
+	for _, ua := range aigrdr.AigJustice {
+		ms := make([]z.Lit, 0, len(ua))
+		for _, u := range ua {
 			m := aigrdr.litFor(u)
 			if m == 0 {
 				return UndefinedLit
 			}
-			aigrdr.Justice[i][j] = m
+			ms = append(ms, m)
 		}
+		aigrdr.Justice = append(aigrdr.Justice, ms)
 	}
 	for _, u := range aigrdr.AigFair {
 		m := aigrdr.litFor(u)
@@ -893,7 +903,6 @@ func (aigrdr *aigerReader) readAsciiInputs(hdr *aigerHeader, r *bufio.Reader) er
 }
 
 func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
-	abr.AigOutputs = make([]uint, 0, nOut)
 	var i uint
 	for i = 0; i < nOut; i++ {
 		u, e := readUint(r)
@@ -912,8 +921,6 @@ func (abr *aigerReader) readOutputs(nOut, max uint, r *bufio.Reader) error {
 }
 
 func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
-	abr.AigBad = make([]uint, 0, int(count))
-	abr.Bad = make([]z.Lit, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -932,8 +939,6 @@ func (abr *aigerReader) readBad(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
-	a.AigConstraints = make([]uint, 0, int(count))
-	a.Constraints = make([]z.Lit, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
@@ -952,27 +957,21 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
-	a.Justice = make([][]z.Lit, int(count), int(count))
-	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]int, 0, int(count))
+	var counts []uint
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
-			return LitOOB
-		}
-		counts = append(counts, int(v))
+		counts = append(counts, v)
 		if err := readNL(r); err != nil {
 			return err
 		}
 	}
 	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
-		for j := 0; j < c; j++ {
+		a.AigJustice = append(a.AigJustice, make([]uint, 0, sizeHint(c)))
+		for j := uint(0); j < c; j++ {
 			v, err := readUint(r)
 			if err != nil {
 				return err
@@ -980,7 +979,7 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			a.AigJustice[i] = append(a.AigJustice[i], v)
 			if err := readNL(r); err != nil {
 				return err
 			}
@@ -990,8 +989,6 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 }
 
 func (a *aigerReader) readFair(r *bufio.Reader, count, max uint) error {
-	a.AigFair = make([]uint, 0, int(count))
-	a.Fair = make([]z.Lit, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
-- 
2.43.0


From aa0e68e89c845ab80d67a4dd52f85be345f5d568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 26/75] fix: aiger readers reject symbols which name nothing

---
 logic/aiger/aiger.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index ae99830..a71f2fd 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1168,6 +1168,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 			if err != nil {
 				return err
 			}
+			if index >= aigrdr.symCount(b) {
+				return InvalidIndex
+			}
 			bs, e := r.ReadByte()
 			if e == io.EOF {
 				return PrematureEOF
@@ -1186,11 +1189,35 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 				return err
 			}
 			aigrdr.symbols[b][int(index)] = string(bytes[0 : len(bytes)-1])
+			continue
 		}
+		return InvalidSymbolType
 	}
 	panic("unreachable")
 }
 
+// the number of things which a symbol of type b may name
+func (aigrdr *aigerReader) symCount(b byte) uint {
+	var n int
+	switch b {
+	case 'i':
+		n = len(aigrdr.Inputs)
+	case 'l':
+		n = len(aigrdr.Latches)
+	case 'o':
+		n = len(aigrdr.AigOutputs)
+	case 'b':
+		n = len(aigrdr.AigBad)
+	case 'c':
+		n = len(aigrdr.AigConstraints)
+	case 'j':
+		n = len(aigrdr.AigJustice)
+	case 'f':
+		n = len(aigrdr.AigFair)
+	}
+	return uint(n)
+}
+
 func (ar *aigerReader) readComments(r *bufio.Reader) error {
 	for {
 		// TBD: add comments api
-- 
2.43.0


From b43093952d67fa37e02222f1659b0fa9bd90bf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:07 +0000
Subject: [PATCH 27/75] fix: aiger writers define gates without sign

---
 logic/aiger/dfs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..6c3d05a 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -44,6 +44,6 @@ func (d *sDfs) vis(m z.Lit) {
 		d.vis(c0)
 		d.vis(c1)
 	}
-	d.fn(d.s, m)
+	d.fn(d.s, m.Var().Pos()) // gates are defined without sign
 	d.marks[m.Var()] = 2
 }
-- 
2.43.0


From f424e044e1d8b34b72264d6426d0ef4cccc722b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 28/75] fix: the dimacs comment filter filters all data and
 returns when nothing was read

---
 dimacs/cfilt.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..aa0f7eb 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -44,9 +44,6 @@ func (s state) String() string {
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -69,7 +66,11 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b == byte('\n') {
+				state = newLine
+			} else {
+				state = notComment
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
@@ -95,8 +96,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && n != 0 && e == nil {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From b7f86806e180691aaf2b9164f4f3927f4132289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 29/75] fix: dimacs integers need digits and a literal must be
 in range

---
 dimacs/int.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..2f35317 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -7,11 +7,13 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 )
 
 func readInt(rdr *bufio.Reader) (int, error) {
 	v := 0
 	m := 1
+	digits := 0
 	c, e := readNextNonWhiteByte(rdr)
 
 	if e != nil && e != io.EOF {
@@ -22,6 +24,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	}
 	if c >= byte('0') && c <= byte('9') {
 		v = int(c - byte('0'))
+		digits++
 	} else if c == byte('-') {
 		m = -1
 	} else {
@@ -29,18 +32,28 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	}
 	for {
 		c, e = rdr.ReadByte()
-		if e == io.EOF {
+		if e == io.EOF && digits > 0 {
 			return v * m, nil
 		}
+		if e == io.EOF {
+			return 0, io.ErrUnexpectedEOF
+		}
 		if e != nil {
 			return 0, e
 		}
+		if digits == 0 && (c < byte('0') || c > byte('9')) {
+			return 0, fmt.Errorf("bad character for int: %c", c)
+		}
 		if c == byte(' ') || c == byte('\n') || c == byte('\t') || c == byte('\r') {
 			break
 		}
 		if c < byte('0') || c > byte('9') {
 			return 0, fmt.Errorf("bad character for int: %c", c)
 		}
+		digits++
+		if v > (math.MaxInt32-int(c-byte('0')))/10 {
+			return 0, fmt.Errorf("int out of range")
+		}
 		v *= 10
 		v += int(c - byte('0'))
 	}
-- 
2.43.0


From 8f3fe357d4d0a3a6a358f92b52b7c1236ce2aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 30/75] fix: the dimacs problem statement must be complete and
 end with its line

---
 dimacs/cnf.go | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..ac8d811 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -7,6 +7,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/go-air/gini/z"
 )
@@ -60,9 +61,7 @@ func (r *cnfReader) SetStrict(v bool) {
 func (r *cnfReader) Read() error {
 	e := r.readHeader()
 	if e != nil {
-		if r.strict || e != io.EOF {
-			return e
-		}
+		return e
 	}
 	if r.strict {
 		if r.hdrVars == -1 || r.hdrCls == -1 {
@@ -87,6 +86,9 @@ func (r *cnfReader) readHeader() error {
 	var e error = nil
 	var b byte
 	b, e = r.rdr.ReadByte()
+	if e == io.EOF { // no header, no body
+		return nil
+	}
 	if e != nil {
 		return e
 	}
@@ -136,6 +138,13 @@ func (r *cnfReader) readBody() error {
 	}
 }
 
+func unexpectedEOF(e error) error {
+	if e == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return e
+}
+
 // called after 'p' at beginning of line
 func (r *cnfReader) readP() error {
 	if r.hdrVars != -1 {
@@ -145,19 +154,31 @@ func (r *cnfReader) readP() error {
 	for _, c := range []byte{byte('p'), byte(' '), byte('c'), byte('n'), byte('f'), byte(' ')} {
 		b, e := rdr.ReadByte()
 		if e != nil {
-			return e
+			return unexpectedEOF(e)
 		}
 		if b != c {
 			return fmt.Errorf("problem statement: expected '%c' got '%c'\n", c, b)
 		}
 	}
-	nv, e := readInt(rdr)
-	if e != nil {
+	// the counts, which must be the rest of the line
+	line, e := rdr.ReadString('\n')
+	if e != nil && e != io.EOF {
 		return e
 	}
-	nc, e := readInt(rdr)
+	lineRdr := bufio.NewReader(strings.NewReader(line))
+	nv, e := readInt(lineRdr)
 	if e != nil {
-		return e
+		return unexpectedEOF(e)
+	}
+	nc, e := readInt(lineRdr)
+	if e != nil {
+		return unexpectedEOF(e)
+	}
+	if nv < 0 || nc < 0 {
+		return fmt.Errorf("problem statement: negative count\n")
+	}
+	if _, e := readNextNonWhiteByte(lineRdr); e != io.EOF {
+		return fmt.Errorf("problem statement: more than two counts\n")
 	}
 	r.hdrVars = nv
 	r.hdrCls = nc
-- 
2.43.0


From 1e31f522df97965840d5e1e4ab46e32afb6b10f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 31/75] fix: a dimacs clause without its end is an error

---
 dimacs/cnf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index ac8d811..5631f35 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -69,7 +69,7 @@ func (r *cnfReader) Read() error {
 		}
 	}
 	e = r.readBody()
-	if e != nil && e != io.EOF {
+	if e != nil {
 		return e
 	}
 	if r.strict {
@@ -112,16 +112,21 @@ func (r *cnfReader) readBody() error {
 	}
 	r.vis.Init(vCap, cCap)
 	v := 0
+	inClause := false
 	var e error
 	vis := r.vis
 	for {
 		v, e = readInt(r.rdr)
+		if e == io.EOF && inClause {
+			return io.ErrUnexpectedEOF
+		}
 		if e == io.EOF {
 			return nil
 		}
 		if e != nil {
 			return e
 		}
+		inClause = v != 0
 		if v == 0 {
 			vis.Add(0)
 			r.nCls++
-- 
2.43.0


From 7111e0466c8a2e532e60ffaca393fe76c84895f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 32/75] fix: ReadCnf calls Eof at the end of the file

---
 dimacs/cnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index 5631f35..66337cb 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -78,6 +78,7 @@ func (r *cnfReader) Read() error {
 				r.hdrVars, r.hdrCls, r.vMax, r.nCls)
 		}
 	}
+	r.vis.Eof()
 	return nil
 }
 
-- 
2.43.0


From 2eebeddb521587b67023764a11f92b11390b908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 33/75] fix: a dimacs header does not make the solver allocate
 all memory

---
 internal/xo/dimacs.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/xo/dimacs.go b/internal/xo/dimacs.go
index 0ac4113..9faddff 100644
--- a/internal/xo/dimacs.go
+++ b/internal/xo/dimacs.go
@@ -12,6 +12,14 @@ type DimacsVis struct {
 }
 
 func (d *DimacsVis) Init(v, c int) {
+	// these are hints from a file, do not allocate too much on their word.
+	const max = 1 << 20
+	if v > max {
+		v = max
+	}
+	if c > max {
+		c = max
+	}
 	d.s = NewSVc(v, c)
 }
 
-- 
2.43.0


From 5ace753532d3087e1fd2bfd6dac77a7c40ec7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:35 +0000
Subject: [PATCH 34/75] fix: icnf layout makes no difference and unfinished
 clauses are errors

---
 dimacs/icnf.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..1464148 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -33,8 +33,12 @@ func (i *iCnfReader) read() error {
 	rdr := i.rdr
 	vis := i.vis
 	assumptions := false
+	inClause := false // or in assumptions
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
+		if e == io.EOF && inClause {
+			return io.ErrUnexpectedEOF
+		}
 		if e == io.EOF {
 			vis.Eof()
 			return nil
@@ -42,8 +46,10 @@ func (i *iCnfReader) read() error {
 		if e != nil {
 			return e
 		}
-		if c == 'a' {
+		if c == 'a' && !inClause {
 			assumptions = true
+			inClause = true
+			continue
 		} else {
 			if e := rdr.UnreadByte(); e != nil {
 				return e
@@ -53,6 +59,7 @@ func (i *iCnfReader) read() error {
 		if e != nil {
 			return e
 		}
+		inClause = m != z.LitNull
 		if assumptions {
 			vis.Assume(m)
 		} else {
@@ -71,7 +78,7 @@ func (i *iCnfReader) readP() error {
 	for i := 0; i < m; i++ {
 		c, e := rdr.ReadByte()
 		if e != nil {
-			return e
+			return unexpectedEOF(e)
 		}
 		if c != expect[i] {
 			return fmt.Errorf("unexpected: '%c'\n", c)
-- 
2.43.0


From a7f1748d17fec38957c886e2ed0492d52509f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 35/75] fix: solver output may have several value lines

---
 dimacs/solve.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..b41bcef 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -55,7 +55,7 @@ func (s *sRdr) read() error {
 	for {
 		c, e := rdr.ReadByte()
 		if e == io.EOF {
-			if len(solbuf) != 0 {
+			if state == sol {
 				if e := s.handleSolution(string(solbuf)); e != nil {
 					return e
 				}
@@ -68,12 +68,12 @@ func (s *sRdr) read() error {
 		}
 		if c == byte('\n') {
 			line++
-			state = neither
-			if len(solbuf) != 0 {
+			if state == sol {
 				if e := s.handleSolution(string(solbuf)); e != nil {
 					return e
 				}
 			}
+			state = neither
 			solbuf = solbuf[:0]
 			continue
 		}
@@ -90,11 +90,24 @@ func (s *sRdr) read() error {
 			if e := rdr.UnreadByte(); e != nil {
 				return e
 			}
-			m, e := readLit(rdr)
-			if e != nil {
+			// the rest of the line, there may be more lines
+			vals, e := rdr.ReadString('\n')
+			if e != nil && e != io.EOF {
 				return e
 			}
-			vis.Value(m)
+			line++
+			state = neither
+			valRdr := bufio.NewReader(strings.NewReader(vals))
+			for {
+				m, e := readLit(valRdr)
+				if e == io.EOF {
+					break
+				}
+				if e != nil {
+					return e
+				}
+				vis.Value(m)
+			}
 		case sol:
 			solbuf = append(solbuf, c)
 		}
-- 
2.43.0


From 95727adede714ea4f7afcc3cf0190e98d9523a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 36/75] fix: variable 0 is neither an inner variable nor mapped
 to one

---
 z/dv.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/z/dv.go b/z/dv.go
index bc3ae43..670cbfa 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -22,7 +22,8 @@ type Vars struct {
 
 // NewVars creates a new Vars object.
 func NewVars() *Vars {
-	return &Vars{}
+	// no variable is 0, on either side
+	return &Vars{i2o: make([]Var, 1), o2i: make([]Var, 1)}
 }
 
 func (v *Vars) Copy() *Vars {
-- 
2.43.0


From 51d368812941cf90b5403e60f5d1264b456a8992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 37/75] fix: z.Vars can give new outer variables

---
 z/dv.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/z/dv.go b/z/dv.go
index 670cbfa..89b0700 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -110,6 +110,22 @@ func (v *Vars) Inner() Lit {
 	return w.Pos()
 }
 
+// Outer produces a new user literal, larger than all which have been
+// referenced before.  The returned literal is always positive.
+func (v *Vars) Outer() Lit {
+	o := v.MaxOuter() + 1
+	v.ensureOuterCap(o)
+	return o.Pos()
+}
+
+// MaxOuter returns the maximum user variable referenced so far.
+func (v *Vars) MaxOuter() Var {
+	if len(v.o2i) == 0 {
+		return 0
+	}
+	return Var(len(v.o2i)) - 1
+}
+
 // Free frees an application literal created by Inner.  If m is
 // not an application literal, the subsequent behavior of v is
 // undefined.
-- 
2.43.0


From 7a7a69dc7730589592724db33eb1632fe78a34fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 38/75] fix: the solver with inner variables takes outer
 variables everywhere

---
 sv.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/sv.go b/sv.go
index f6a525f..0fd0bd2 100644
--- a/sv.go
+++ b/sv.go
@@ -41,28 +41,43 @@ func (w *svWrap) FreeInner(m z.Lit) {
 }
 
 func (w *svWrap) Assume(ms ...z.Lit) {
-	w.S.Assume(w.V.ToInners(ms)...)
+	ns := make([]z.Lit, len(ms)) // ms belongs to the caller
+	copy(ns, ms)
+	w.S.Assume(w.V.ToInners(ns)...)
 }
 
 func (w *svWrap) Add(m z.Lit) {
-	w.S.Add(m)
+	w.S.Add(w.V.ToInner(m))
 }
 
 func (w *svWrap) MaxVar() z.Var {
-	return w.S.MaxVar()
+	return w.V.MaxOuter()
 }
 
 func (w *svWrap) Lit() z.Lit {
-	return w.S.Lit()
+	m := w.V.Outer()
+	w.known(m)
+	return m
+}
+
+// known gives the inner literal of m and makes sure that the inner solver
+// knows its variable.
+func (w *svWrap) known(m z.Lit) z.Lit {
+	n := w.V.ToInner(m)
+	for w.S.MaxVar() < n.Var() {
+		w.S.Lit()
+	}
+	return n
 }
 
 func (w *svWrap) Why(dst []z.Lit) []z.Lit {
+	n := len(dst) // Why appends
 	dst = w.S.Why(dst)
-	return w.V.ToOuters(dst)
+	return dst[:n+len(w.V.ToOuters(dst[n:]))]
 }
 
 func (w *svWrap) Value(m z.Lit) bool {
-	return w.S.Value(w.V.ToInner(m))
+	return w.S.Value(w.known(m))
 }
 
 func (w *svWrap) Solve() int {
@@ -88,7 +103,7 @@ func (w *svWrap) Untest() int {
 }
 
 func (w *svWrap) Reasons(dst []z.Lit, implied z.Lit) []z.Lit {
-	inImplied := w.V.ToInner(implied)
+	inImplied := w.known(implied)
 	dst = w.S.Reasons(dst, inImplied)
 	return w.V.ToOuters(dst)
 }
-- 
2.43.0


From cd8829b144f6d6b827e227530cba9e339b37da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 39/75] fix: PyTriples constrains the elements 1..n only, under
 their own variables

---
 gen/pt.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/gen/pt.go b/gen/pt.go
index 3dbf482..b99e57c 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -41,12 +41,12 @@ func Partition(dst inter.Adder, n, k int) {
 // s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n]
 func PyTriples(dst inter.Adder, n, k int) {
 	Partition(dst, n, k)
-	_, ts := pytriples(n)
-	for _, t := range ts {
+	for _, t := range pytriplesIn(n) {
 		for p := 0; p < k; p++ {
-			a := PartVar(t.a, p, n)
-			b := PartVar(t.b, p, n)
-			c := PartVar(t.c, p, n)
+			// Partition counts elements from 0
+			a := PartVar(t.a-1, p, n)
+			b := PartVar(t.b-1, p, n)
+			c := PartVar(t.c-1, p, n)
 			dst.Add(a.Not())
 			dst.Add(b.Not())
 			dst.Add(c.Not())
@@ -109,6 +109,21 @@ type triple struct {
 	a, b, c int
 }
 
+// pytriplesIn gives all triples with elements in [1..n].
+func pytriplesIn(n int) []triple {
+	var res []triple
+	sqrs := &squares{}
+	for bi := 2; bi < n; bi++ {
+		for ai := 1; ai < bi; ai++ {
+			ci := sqrs.root(sqrs.get(ai) + sqrs.get(bi))
+			if ci != -1 && ci <= n {
+				res = append(res, triple{ai, bi, ci})
+			}
+		}
+	}
+	return res
+}
+
 func pytriples(n int) (map[int]int, []triple) {
 	ai, bi := 1, 2
 	res := make([]triple, 0, n)
-- 
2.43.0


From b41bc551989f1be2142256e0ab525944acb1bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 40/75] fix: RandColor uses one variable per node and colour
 and one clause per edge and colour

---
 gen/color.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..407f7da 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -17,7 +17,7 @@ import (
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
 	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+		return z.Var(n*k + c + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From e95ef33c22f891bc537da62759979f7716546810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:42 +0000
Subject: [PATCH 41/75] fix: squares.root finds the root of a square just
 beyond the table

---
 gen/pt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/pt.go b/gen/pt.go
index b99e57c..bbb1a8b 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -91,7 +91,7 @@ func (s *squares) get(i int) int {
 
 func (s *squares) root(v int) int {
 	t := s.d
-	for len(t)*len(t) < v {
+	for len(t)*len(t) <= v {
 		t = append(t, len(t)*len(t))
 	}
 	s.d = t
-- 
2.43.0


From b89f7538c8c00070b4261ac746c2a17b0f00d656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 42/75] fix: ax.T.Stop ends the serving goroutine and all
 workers

shutdown sent a cancelation to every unit, but idle units do not listen, so
it blocked for good and left busy units running.  The serving goroutine
also never noticed Stop while it waited for the client to take a response,
and closing the request channel made a concurrent Ex panic.
---
 ax/ax.go | 59 +++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/ax/ax.go b/ax/ax.go
index 0fae038..1571c05 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -77,9 +77,8 @@ func NewT(proto inter.S, cap int) T {
 // outstanding (*), then pool accepts one more request and waits for a u to
 // become available.
 //
-// When the ax receives a channel close on the request channel from the
-// client, it immediately shuts down the u's, which select on a cancelation
-// channel along with their request channel.
+// When the client closes the stop channel, the ax immediately shuts down the
+// busy u's, which select on a cancelation channel.
 //
 //
 // -ax-(s)-----<Req<----------(s)---Client
@@ -133,6 +132,7 @@ type ax struct {
 	reqChn   chan *Request
 	respChn  chan *Response
 	uRespChn chan *Response
+	stop     chan struct{}
 	us       []*unit
 	avail    []int
 	cap      int
@@ -147,6 +147,7 @@ func newAx(proto inter.S, cap int) *ax {
 		reqChn:   make(chan *Request),
 		respChn:  make(chan *Response),
 		uRespChn: make(chan *Response, 1),
+		stop:     make(chan struct{}),
 		us:       make([]*unit, 1, cap),
 		avail:    make([]int, 1, cap),
 		cap:      cap}
@@ -158,13 +159,20 @@ func newAx(proto inter.S, cap int) *ax {
 
 func (m *ax) Ex(req *Request) *Response {
 	if req == nil {
-		return <-m.respChn
+		select {
+		case resp := <-m.respChn:
+			return resp
+		case <-m.stop:
+			return nil
+		}
 	}
 	select {
 	case m.reqChn <- req:
 		return nil
 	case resp := <-m.respChn:
 		return resp
+	case <-m.stop:
+		return nil
 	}
 }
 
@@ -189,17 +197,16 @@ func (m *ax) TryEx(req *Request) (*Response, bool) {
 }
 
 func (m *ax) Stop() {
-	close(m.reqChn)
+	close(m.stop)
 }
 
 func (m *ax) serve() {
 	for {
 		select {
-		case req, ok := <-m.reqChn:
-			if !ok {
-				m.shutdown()
-				return
-			}
+		case <-m.stop:
+			m.shutdown()
+			return
+		case req := <-m.reqChn:
 			m.handleReq(req)
 		case resp := <-m.uRespChn:
 			m.handleResp(resp)
@@ -209,8 +216,12 @@ func (m *ax) serve() {
 
 func (m *ax) handleReq(req *Request) {
 	if len(m.avail) == 0 {
-		resp := <-m.uRespChn
-		m.handleResp(resp)
+		select {
+		case resp := <-m.uRespChn:
+			m.handleResp(resp)
+		case <-m.stop:
+			return
+		}
 	}
 	u := m.getunit(req)
 	//log.Printf("start request %d by %d\n", req.Id, u.I)
@@ -252,13 +263,29 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
-	m.respChn <- resp // shouldn't block if client agrees to API
+	select {
+	case m.respChn <- resp: // shouldn't block if client agrees to API
+	case <-m.stop:
+	}
 }
 
 func (m *ax) shutdown() {
-	for _, u := range m.us {
-		if u != nil {
-			u.cancel <- struct{}{}
+	// only busy units listen to cancel, and they may just be finishing.
+	busy := make(map[int]bool, len(m.us))
+	for i := range m.us {
+		busy[i] = true
+	}
+	for _, i := range m.avail {
+		delete(busy, i)
+	}
+	for i, u := range m.us {
+		for busy[i] {
+			select {
+			case u.cancel <- struct{}{}:
+				delete(busy, i)
+			case resp := <-m.uRespChn:
+				delete(busy, resp.Who)
+			}
 		}
 	}
 }
-- 
2.43.0


From ab6ddf63b195b788cf487f16c705ec99ea3d7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 43/75] fix: ax responses carry the number of pending requests

---
 ax/ax.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ax/ax.go b/ax/ax.go
index 1571c05..443b8f0 100644
--- a/ax/ax.go
+++ b/ax/ax.go
@@ -136,6 +136,7 @@ type ax struct {
 	us       []*unit
 	avail    []int
 	cap      int
+	pending  int // accepted requests whose response was not handed out
 }
 
 func newAx(proto inter.S, cap int) *ax {
@@ -215,6 +216,7 @@ func (m *ax) serve() {
 }
 
 func (m *ax) handleReq(req *Request) {
+	m.pending++
 	if len(m.avail) == 0 {
 		select {
 		case resp := <-m.uRespChn:
@@ -263,6 +265,8 @@ func (m *ax) getunit(req *Request) *unit {
 
 func (m *ax) handleResp(resp *Response) {
 	m.avail = append(m.avail, resp.Who)
+	m.pending--
+	resp.Pending = m.pending
 	select {
 	case m.respChn <- resp: // shouldn't block if client agrees to API
 	case <-m.stop:
-- 
2.43.0


From b235a07386e1118a31442ef3a050555e0a75baaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 44/75] fix: stopping a CRISP solve which has just finished
 hung

---
 crisp/client.go   | 24 ++++++++++++++----------
 crisp/netsolve.go |  8 +++-----
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..7eb84a5 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -17,9 +17,7 @@ import (
 
 // Type Client is a concrete Solver which communicates using the gini sat protocol.
 type Client struct {
-	conn    net.Conn
-	cancel  chan struct{}
-	resChan chan result
+	conn net.Conn
 
 	io      *vu32io
 	proto   ProtoPoint
@@ -45,8 +43,6 @@ func Dial(addr string) (*Client, error) {
 	}
 	c := &Client{
 		conn:    conn,
-		cancel:  make(chan struct{}),
-		resChan: make(chan result),
 		io:      newVu32Io(conn),
 		proto:   Unknown,
 		lastSat: 0}
@@ -155,6 +151,10 @@ func (c *Client) MaxVar() z.Var {
 //
 //  -1 if the problem is unsatisfiable
 func (c *Client) Solve() (int, error) {
+	return c.solve(nil)
+}
+
+func (c *Client) solve(cancel <-chan struct{}) (int, error) {
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -186,7 +186,7 @@ func (c *Client) Solve() (int, error) {
 				return 0, ErrOutOfOrder
 			}
 			select {
-			case <-c.cancel:
+			case <-cancel:
 				if e := c.io.writeflush(uint32(End)); e != nil {
 					return 0, e
 				}
@@ -209,12 +209,16 @@ func (c *Client) Solve() (int, error) {
 // GoSolve returns a connection to a solve proces
 // in the background.
 func (c *Client) GoSolve() gnet.Solve {
+	// one place in each: neither side waits for a peer which is gone, and
+	// nothing is left over for the next solve.
+	cancel := make(chan struct{}, 1)
+	resChan := make(chan result, 1)
 	as := &netsolve{
-		cancel: c.cancel,
-		result: c.resChan}
+		cancel: cancel,
+		result: resChan}
 	go func() {
-		v, e := c.Solve()
-		c.resChan <- result{v: v, e: e}
+		v, e := c.solve(cancel)
+		resChan <- result{v: v, e: e}
 	}()
 	return as
 }
diff --git a/crisp/netsolve.go b/crisp/netsolve.go
index 1b08713..77ad230 100644
--- a/crisp/netsolve.go
+++ b/crisp/netsolve.go
@@ -38,11 +38,9 @@ func (s *netsolve) Try(d time.Duration) (int, error) {
 // the result should be ignored if a non-nil error is returned.
 func (s *netsolve) Stop() (int, error) {
 	select {
-	case res := <-s.result:
-		s.cancel <- struct{}{}
-		return res.v, res.e
 	case s.cancel <- struct{}{}:
-		r := <-s.result
-		return r.v, r.e
+	default:
 	}
+	r := <-s.result
+	return r.v, r.e
 }
-- 
2.43.0


From 4e9a0a6168ffa760ef642c777a3ff48c6e70dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 45/75] fix: CRISP took varuints of more than 32 bits for other
 values

---
 crisp/vu32io.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..23d50f4 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -51,6 +51,10 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
+		if i == 4 && z > 0xf {
+			// more than 32 bits
+			return 0, ErrVarUint
+		}
 
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
-- 
2.43.0


From f3625a7cec7f2e1b3e8819419fb95abdf9e439ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 46/75] fix: CRISP lost data when writing before all that was
 received was read

---
 crisp/vu32io.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 23d50f4..52c15f8 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -17,13 +17,15 @@ import (
 // 2. encoding/binary keeps a separate buffer for each value, we code directly
 // to the underlying buffer of the buffered io.
 // 3. we are not safe for multiple goroutines (unliked buffered io)
-// 4. encoding/binary's buffered io needs a separate buffer for reading and
-// writing, we don't in this context.
+//
+// Reading and writing have separate buffers, because a peer may send more
+// before it has read our answer.
 
 type vu32io struct {
 	rw   io.ReadWriter
-	buf  []byte
-	r, w int
+	buf  []byte // for reading
+	r, w int    // buf[r:w] is yet to be decoded
+	out  []byte // for writing: what is yet to be flushed
 }
 
 const (
@@ -35,7 +37,8 @@ func newVu32Io(rw io.ReadWriter) *vu32io {
 		rw:  rw,
 		r:   0,
 		w:   0,
-		buf: make([]byte, 1024)}
+		buf: make([]byte, 1024),
+		out: make([]byte, 0, 1024)}
 }
 
 func (io *vu32io) readu32() (uint32, error) {
@@ -139,20 +142,16 @@ func (io *vu32io) readByte() (byte, error) {
 }
 
 func (io *vu32io) writeByte(b byte) error {
-	if io.r >= len(io.buf) {
+	if len(io.out) == cap(io.out) {
 		if e := io.flush(); e != nil {
 			return e
 		}
 	}
-	io.buf[io.r] = b
-	io.r++
+	io.out = append(io.out, b)
 	return nil
 }
 
 func (vio *vu32io) fill() error {
-	if vio.r > vio.w {
-		return fmt.Errorf("fill without write flush")
-	}
 	if vio.r == vio.w {
 		vio.r = 0
 		vio.w = 0
@@ -174,11 +173,11 @@ func (vio *vu32io) fill() error {
 }
 
 func (io *vu32io) flush() error {
-	n := io.r
-	m := io.w
+	n := len(io.out)
+	m := 0
 	k := 0
 	for m < n {
-		o, e := io.rw.Write(io.buf[m:n])
+		o, e := io.rw.Write(io.out[m:n])
 		m += o
 		if o > 0 {
 			k = 0
@@ -191,7 +190,6 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.r = 0
-	io.w = 0
+	io.out = io.out[:0]
 	return nil
 }
-- 
2.43.0


From 8cca9ff26fd9c99f64a38bd36308d77f1dbdac65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 47/75] fix: CRISP server allocated whatever key length a peer
 announced

---
 crisp/handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index f84fbc6..56154a7 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -173,13 +173,13 @@ func (h *Handler) handleKey() error {
 	if e != nil {
 		return e
 	}
-	key := make([]uint32, n)
+	var key []uint32
 	for i := uint32(0); i < n; i++ {
 		m, e := h.uio.readu32()
 		if e != nil {
 			return e
 		}
-		key[i] = m
+		key = append(key, m)
 	}
 	// check the key
 	return nil
-- 
2.43.0


From 3e01c5a78ea335daaab3b7cef194fae69d239ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 48/75] fix: CRISP server closed the connection without sending
 <error> for some errors

---
 crisp/handler.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 56154a7..697664a 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -71,6 +71,9 @@ func (h *Handler) serveConn(conn net.Conn) {
 	h.proto = Unknown
 	if e := h.Crisp(); e != nil {
 		log.Printf("%d crisp() result error %s", h.id, e)
+		if pe, ok := e.(ProtoErr); ok {
+			h.Error(pe)
+		}
 	}
 	h.cleanup()
 }
@@ -152,7 +155,7 @@ func (h *Handler) Crisp() error {
 		case Quit:
 			return h.handleQuit()
 		default:
-			return h.Error(ErrUnknownOp)
+			return ErrUnknownOp
 		}
 	}
 }
@@ -214,7 +217,7 @@ func (h *Handler) handleAdd() error {
 			return nil
 		}
 		if m >= uint32(MinProto) {
-			return fmt.Errorf("CRISP protocol error expected data, got %s", ProtoPoint(m))
+			return ErrNotLit
 		}
 		g.Add(z.Lit(m))
 	}
@@ -305,7 +308,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 func (h *Handler) handleModel() error {
 	if h.proto != Solve {
 		log.Printf("model but not solving.\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
@@ -338,7 +341,7 @@ func (h *Handler) handleModel() error {
 
 func (h *Handler) handleModelFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
@@ -371,7 +374,7 @@ func (h *Handler) handleModelFor() error {
 func (h *Handler) handleFailed() error {
 	if h.proto != Solve {
 		log.Printf("failed but not solve\n")
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
@@ -382,7 +385,7 @@ func (h *Handler) handleFailed() error {
 
 func (h *Handler) handleFailedFor() error {
 	if h.proto != Solve {
-		return h.Error(ErrOutOfOrder)
+		return ErrOutOfOrder
 	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
@@ -417,6 +420,7 @@ func (h *Handler) handleQuit() error {
 	return nil
 }
 
+// Error tells the client about e; the connection is closed afterwards.
 func (h *Handler) Error(e ProtoErr) error {
 	if *h.trace {
 		log.Printf("%d <error> %s\n", h.id, e)
@@ -427,6 +431,5 @@ func (h *Handler) Error(e ProtoErr) error {
 	if e := h.uio.writeflush(uint32(e)); e != nil {
 		return e
 	}
-	h.cleanup()
 	return e
 }
-- 
2.43.0


From fd64e6524cb227c50e36d19bf375367c4f424cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 49/75] fix: CRISP server crashed or hung on operations during
 a solve, and refused models after <end>

---
 crisp/handler.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 697664a..bc559db 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -29,6 +29,8 @@ type Handler struct {
 	uio       *vu32io
 	gini      *gini.Gini
 	solveConn inter.Solve
+	solving   bool // solveConn has not given its result yet
+	res       int  // result of the last solve
 	proto     ProtoPoint
 	ms        []z.Lit
 	trace     *bool
@@ -83,6 +85,12 @@ func (h *Handler) cleanup() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
+	if h.solving {
+		h.solveConn.Stop()
+		h.solving = false
+	}
+	h.solveConn = nil
+	h.res = 0
 	h.uio = nil
 	h.gini = nil
 	h.ms = h.ms[:0]
@@ -103,6 +111,10 @@ func (h *Handler) Crisp() error {
 		if *h.trace {
 			log.Printf("%d received %s\n", h.id, p)
 		}
+		if h.solving && p != Continue && p != End && p != Quit {
+			// the solver is at work, nothing else can use it.
+			return ErrOutOfOrder
+		}
 		switch p {
 		case Key:
 			if e := h.handleKey(); e != nil {
@@ -240,12 +252,14 @@ func (h *Handler) handleAssume() error {
 func (h *Handler) handleSolve() error {
 	h.proto = Solve
 	h.solveConn = h.gini.GoSolve()
+	h.solving = true
+	h.res = 0
 	h.steps = 0
 	return h.handleStep()
 }
 
 func (h *Handler) handleContinue() error {
-	if h.proto != Solve {
+	if !h.solving {
 		log.Printf("continue but not solving.\n")
 		return ErrOutOfOrder
 	}
@@ -253,21 +267,23 @@ func (h *Handler) handleContinue() error {
 }
 
 func (h *Handler) handleEnd() error {
-	if h.proto != Solve {
+	if !h.solving {
 		log.Printf("end but not solving\n")
 		return ErrOutOfOrder
 	}
-	h.proto = End
-	return h.sendRes(h.solveConn.Stop(), true)
+	h.solving = false
+	h.res = h.solveConn.Stop()
+	return h.sendRes(h.res, true)
 }
 
 func (h *Handler) handleStep() error {
 	res, done := h.solveConn.Test()
-	if res == 0 && done {
-		panic("Test bombed")
+	if done {
+		h.solving = false
+		h.res = res
 	}
 	h.steps++
-	return h.sendRes(res, false)
+	return h.sendRes(res, done)
 }
 
 func (h *Handler) sendRes(res int, end bool) error {
-- 
2.43.0


From 8ac1004e2ed6b8bc5e1af2133674ccc21bddabf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 50/75] fix: CRISP server answered model and failed requests
 after the wrong result

---
 crisp/handler.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crisp/handler.go b/crisp/handler.go
index bc559db..3e65db5 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -326,6 +326,9 @@ func (h *Handler) handleModel() error {
 		log.Printf("model but not solving.\n")
 		return ErrOutOfOrder
 	}
+	if h.res != 1 {
+		return ErrNotSat
+	}
 	var u uint32
 	M := uint32(h.gini.MaxVar())
 	N := M
@@ -359,6 +362,9 @@ func (h *Handler) handleModelFor() error {
 	if h.proto != Solve {
 		return ErrOutOfOrder
 	}
+	if h.res != 1 {
+		return ErrNotSat
+	}
 	ms, e := h.uio.recv(h.ms)
 	if e != nil {
 		return e
@@ -392,6 +398,9 @@ func (h *Handler) handleFailed() error {
 		log.Printf("failed but not solve\n")
 		return ErrOutOfOrder
 	}
+	if h.res != -1 {
+		return ErrNotUnsat
+	}
 	fails := h.gini.Why(h.ms)
 	if e := h.uio.send(fails); e != nil {
 		return e
@@ -403,6 +412,9 @@ func (h *Handler) handleFailedFor() error {
 	if h.proto != Solve {
 		return ErrOutOfOrder
 	}
+	if h.res != -1 {
+		return ErrNotUnsat
+	}
 	fMap := make(map[z.Lit]struct{})
 	h.ms = h.ms[:0]
 	fs := h.gini.Why(h.ms)
-- 
2.43.0


From 5c068b8f828f99f1756da2de5bc915857289b4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 51/75] fix: CRISP server crashed on literals of unknown
 variables and of variable 0

---
 crisp/handler.go | 13 ++++++++++++-
 crisp/vu32io.go  |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index 3e65db5..fcb8843 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -231,6 +231,9 @@ func (h *Handler) handleAdd() error {
 		if m >= uint32(MinProto) {
 			return ErrNotLit
 		}
+		if m != 0 && z.Lit(m).Var() == 0 {
+			return ErrNotLit
+		}
 		g.Add(z.Lit(m))
 	}
 }
@@ -358,6 +361,14 @@ func (h *Handler) handleModel() error {
 	return h.uio.flush()
 }
 
+// value is the value of m; variables the solver doesn't know are false.
+func (h *Handler) value(m z.Lit) bool {
+	if m.Var() > h.gini.MaxVar() {
+		return !m.IsPos()
+	}
+	return h.gini.Value(m)
+}
+
 func (h *Handler) handleModelFor() error {
 	if h.proto != Solve {
 		return ErrOutOfOrder
@@ -380,7 +391,7 @@ func (h *Handler) handleModelFor() error {
 	var u uint32
 	for i := uint32(0); i < N; i++ {
 		j := i % 32
-		if i < M && h.gini.Value(ms[i]) {
+		if i < M && h.value(ms[i]) {
 			u = u | (1 << j)
 		}
 		if j == uint32(31) {
diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 52c15f8..6a181cd 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -116,7 +116,7 @@ func (io *vu32io) recv(dst []z.Lit) ([]z.Lit, error) {
 		if d == 0 {
 			return dst, nil
 		}
-		if d >= uint32(MinProto) {
+		if d >= uint32(MinProto) || z.Lit(d).Var() == 0 {
 			return dst, ErrNotLit
 		}
 		dst = append(dst, z.Lit(d))
-- 
2.43.0


From f25735c1427d5d238cd9df3b0b6264a90ac5a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 52/75] fix: CRISP client reported success when it could not
 reach the server

---
 crisp/client.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 7eb84a5..c42e5c2 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -110,7 +110,9 @@ func (c *Client) fromXo(x *xo.S) error {
 // To terminate the clause, m should 0.
 func (c *Client) Add(m z.Lit) error {
 	if c.proto != Add {
-		c.checkState(Add)
+		if e := c.checkState(Add); e != nil {
+			return e
+		}
 	}
 	if m.Var() > c.maxVar {
 		c.maxVar = m.Var()
@@ -124,7 +126,9 @@ func (c *Client) Assume(ms ...z.Lit) error {
 	if len(ms) == 0 {
 		return nil
 	}
-	c.checkState(Assume)
+	if e := c.checkState(Assume); e != nil {
+		return e
+	}
 	if e := c.io.send(ms); e != nil {
 		return e
 	}
@@ -230,7 +234,7 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(Model); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	var u uint32
 	var n uint32
@@ -280,7 +284,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 		return nil, fmt.Errorf("last solve call wasn't sat")
 	}
 	if e := c.checkState(ModelFor); e != nil {
-		return nil, nil
+		return nil, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
@@ -321,7 +325,7 @@ func (c *Client) Why(ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(Failed); e != nil {
-		return ms, nil
+		return ms, e
 	}
 	return c.io.recv(ms)
 }
@@ -334,7 +338,7 @@ func (c *Client) WhySelect(dst []z.Lit, ms []z.Lit) ([]z.Lit, error) {
 		return nil, fmt.Errorf("last solve call wasn't unsat")
 	}
 	if e := c.checkState(FailedFor); e != nil {
-		return dst, nil
+		return dst, e
 	}
 	if e := c.io.send(ms); e != nil {
 		return nil, e
-- 
2.43.0


From 510a51e8479d6f7cf7db9fcd8d6290993ac9a6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 53/75] fix: CRISP client gave values of earlier models, or
 crashed on unknown variables

---
 crisp/client.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index c42e5c2..119316b 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -159,6 +159,8 @@ func (c *Client) Solve() (int, error) {
 }
 
 func (c *Client) solve(cancel <-chan struct{}) (int, error) {
+	c.lastSat = 0
+	c.model = nil
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -259,18 +261,20 @@ func (c *Client) Model(vs []bool) ([]bool, error) {
 		}
 		vs[i+1] = u&(1<<j) != 0
 	}
-	c.model = vs
+	c.model = append([]bool(nil), vs...)
 	return vs, nil
 }
 
 // Value implements the inter.NetModel interface
 func (c *Client) Value(m z.Lit) (bool, error) {
 	if c.model == nil {
-		m, e := c.Model(nil)
-		if e != nil {
+		if _, e := c.Model(nil); e != nil {
 			return false, e
 		}
-		c.model = m
+	}
+	if int(m.Var()) >= len(c.model) {
+		// not known to the server
+		return !m.IsPos(), nil
 	}
 	if m.IsPos() {
 		return c.model[m.Var()], nil
@@ -388,6 +392,9 @@ func (c *Client) Reset() error {
 		return e
 	}
 	c.proto = Unknown
+	c.lastSat = 0
+	c.model = nil
+	c.maxVar = 0
 	return nil
 }
 
-- 
2.43.0


From 264149b88ff7fe2ec385bef0a59f461b31427dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 54/75] fix: CRISP client crashed on, and shifted, partial
 models

---
 crisp/client.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index 119316b..a9464a3 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -282,7 +282,9 @@ func (c *Client) Value(m z.Lit) (bool, error) {
 	return !c.model[m.Var()], nil
 }
 
-// ModelFor returns a partial model of the
+// ModelFor returns a partial model, if the last Solve() was satisfiable: the
+// i'th element of the result is the truth value of ms[i].  The result may be
+// longer than ms.
 func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if c.lastSat != 1 {
 		return nil, fmt.Errorf("last solve call wasn't sat")
@@ -303,13 +305,13 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if e != nil {
 		return nil, e
 	}
-	theCap := n*32 + 1
+	theCap := n * 32
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
-	for i := uint32(0); i < theCap-1; i++ {
+	for i := uint32(0); i < theCap; i++ {
 		j := i % 32
 		if j == 0 {
 			u, e = c.io.readu32()
@@ -317,7 +319,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 				return nil, e
 			}
 		}
-		dst[i+1] = u&(1<<j) != 0
+		dst[i] = u&(1<<j) != 0
 	}
 	return dst, nil
 }
-- 
2.43.0


From 2d52c9b9ac4e734541f2a4087eadad0396c4a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:25 +0000
Subject: [PATCH 55/75] fix: CRISP client left out variables of dimacs files
 which only occur in tautologies

---
 crisp/client.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/crisp/client.go b/crisp/client.go
index a9464a3..f23a005 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -79,13 +79,27 @@ func (c *Client) Hello() error {
 // to the server, returning an error if there was
 // a problem
 func (c *Client) Dimacs(r io.Reader) error {
-	vis := &xo.DimacsVis{}
+	vis := &dimacsVis{}
 	if e := dimacs.ReadCnf(r, vis); e != nil {
 		return e
 	}
-	return c.fromXo(vis.S())
+	for _, m := range vis.ms {
+		if e := c.Add(m); e != nil {
+			return e
+		}
+	}
+	return nil
 }
 
+// dimacsVis keeps the clauses just as they are in the file.
+type dimacsVis struct {
+	ms []z.Lit
+}
+
+func (d *dimacsVis) Init(v, c int) {}
+func (d *dimacsVis) Add(m z.Lit)   { d.ms = append(d.ms, m) }
+func (d *dimacsVis) Eof()          {}
+
 // TBD: make this stream/buffer the adds instead
 // of loading into client memory.
 func (c *Client) fromXo(x *xo.S) error {
-- 
2.43.0


From c04ecb3f267e75426f8e7ee4e3624411dbe2299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 56/75] fix: CRISP sent data twice when flushing after an error

---
 crisp/vu32io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 6a181cd..26d731f 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -176,6 +176,10 @@ func (io *vu32io) flush() error {
 	n := len(io.out)
 	m := 0
 	k := 0
+	// what has been written is not written again, also after an error.
+	defer func() {
+		io.out = io.out[:copy(io.out, io.out[m:])]
+	}()
 	for m < n {
 		o, e := io.rw.Write(io.out[m:n])
 		m += o
@@ -190,6 +194,5 @@ func (io *vu32io) flush() error {
 			return fmt.Errorf("repeated zero length no-error writes.")
 		}
 	}
-	io.out = io.out[:0]
 	return nil
 }
-- 
2.43.0


From 3bcf2cd01d0d17eae5d381f54952a8c353e56967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 57/75] fix: the gini command crashed on inputs with unknown
 extensions

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 5691bd4..2d34122 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -400,6 +400,10 @@ func main() {
 			continue
 		}
 		format, e := path2Format(fName)
+		if e != nil {
+			log.Printf("%s: %s", fName, e)
+			continue
+		}
 		log.Print(fName)
 		_, e = format.runReader(r)
 		if e != nil {
-- 
2.43.0


From 80ec8f7530723603a599b7c306e4730071dcee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 58/75] fix: the gini command took assumptions out of range for
 others

---
 cmd/gini/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 2d34122..46b2fce 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 	"io"
 	"log"
+	"math"
 	"net/http"
 	_ "net/http/pprof"
 	"os"
@@ -47,6 +48,9 @@ func (a *assumes) Set(val string) error {
 		if i == 0 {
 			return fmt.Errorf("zero assumption")
 		}
+		if i > math.MaxInt32 || i < -math.MaxInt32 {
+			return fmt.Errorf("assumption %d out of range", i)
+		}
 		*a = append(*a, z.Dimacs2Lit(i))
 	}
 	return nil
-- 
2.43.0


From ab4306dbf51c8a0d8d125b8a40a752992e7924ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 59/75] fix: the gini command exited with the code for unknown
 after errors

---
 cmd/gini/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 46b2fce..893a897 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -185,6 +185,7 @@ func runSatComp() {
 	}
 	if e != nil {
 		log.Println(e)
+		os.Exit(1)
 	}
 	handleExit(res)
 }
-- 
2.43.0


From 8a78f78c07cd9136122ed1085cfc64e1deb7fe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 60/75] fix: the gini command without inputs reads stdin as
 documented

---
 cmd/gini/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/gini/main.go b/cmd/gini/main.go
index 893a897..d838e6b 100644
--- a/cmd/gini/main.go
+++ b/cmd/gini/main.go
@@ -397,6 +397,12 @@ func main() {
 		runSatComp()
 		return
 	}
+	if flag.NArg() == 0 {
+		if _, e := runCnfReader(os.Stdin); e != nil {
+			log.Printf("error: %s\n", e)
+		}
+		return
+	}
 	for i := 0; i < flag.NArg(); i++ {
 		fName := flag.Arg(i)
 		r, e := path2Reader(fName)
-- 
2.43.0


From 933d15ef013beb5dc8d8221459b8ff299e7bd751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:27 +0000
Subject: [PATCH 61/75] fix: the gini command counted solved cubes of earlier
 batches

---
 cmd/gini/icnf.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/gini/icnf.go b/cmd/gini/icnf.go
index 501a46a..f4ccdf8 100644
--- a/cmd/gini/icnf.go
+++ b/cmd/gini/icnf.go
@@ -136,6 +136,7 @@ func (i *iCnfAx) solveCubes() {
 	ttl := len(i.cubes)
 	req := i.genReq()
 	results := make([]int, len(i.cubes))
+	i.solved = 0
 	for ttl > 0 {
 		resp := i.ax.Ex(req)
 		if resp == nil {
-- 
2.43.0


From e5a90573b6778bac8054911dd1f80e9b064b3d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 62/75] fix: reopened benchmark suites had other names and
 hashes, new ones no instances

---
 bench/suite.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 0f81000..c92dd57 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -68,6 +68,9 @@ func CreateSuite(root string, insts []string) (*Suite, error) {
 	if e := s.copyInsts(insts); e != nil {
 		return nil, e
 	}
+	if e := s.readInsts(); e != nil {
+		return nil, e
+	}
 	return s, nil
 }
 
@@ -81,6 +84,9 @@ func LinkSuite(root string, insts []string) (*Suite, error) {
 	if e := s.linkInsts(insts); e != nil {
 		return nil, e
 	}
+	if e := s.readInsts(); e != nil {
+		return nil, e
+	}
 	return s, nil
 }
 
@@ -144,6 +150,11 @@ func setupSuite(root string, insts []string) (*Suite, error) {
 	if ste == nil {
 		return nil, fmt.Errorf("root %s already exists.", root)
 	}
+	for _, inst := range insts {
+		if strings.Contains(inst, "\n") {
+			return nil, fmt.Errorf("instance name %q contains a newline.", inst)
+		}
+	}
 	if e := os.MkdirAll(root, 0755); e != nil {
 		return nil, e
 	}
@@ -306,7 +317,10 @@ func (s *Suite) readMap() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Map = append(s.Map, strings.TrimSpace(line))
+		if e == io.EOF && line == "" {
+			return nil
+		}
+		s.Map = append(s.Map, strings.TrimSuffix(line, "\n"))
 		if e == io.EOF {
 			return nil
 		}
@@ -325,7 +339,10 @@ func (s *Suite) readHashes() error {
 		if e != nil && e != io.EOF {
 			return e
 		}
-		s.Hashes = append(s.Hashes, line)
+		if e == io.EOF && line == "" {
+			return nil
+		}
+		s.Hashes = append(s.Hashes, strings.TrimSpace(line))
 		if e == io.EOF {
 			return nil
 		}
-- 
2.43.0


From ed5eff97478bd9e10b2fbe21100388744d2fc40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 63/75] fix: benchmark instances without extension vanished,
 directories gave extensions

---
 bench/suite.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bench/suite.go b/bench/suite.go
index c92dd57..cd2fc6e 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -234,6 +234,7 @@ var knownExts = map[string]bool{
 	".inccnf": true}
 
 func exts(p string) string {
+	p = filepath.Base(p)
 	res := make([]string, 0, 2)
 	for {
 		e := filepath.Ext(p)
@@ -288,7 +289,7 @@ func (s *Suite) readInsts() error {
 			continue
 		}
 		j := -1
-		_, e := fmt.Sscanf(nm, "bench-%d.", &j)
+		_, e := fmt.Sscanf(nm, "bench-%d", &j)
 		if e != nil {
 			log.Printf("unexpected file in benchmark dir %s: %s\n", s.Root, nm)
 			continue
-- 
2.43.0


From 6c02d8b730a2f20677a1285b09c2f6466d0f02e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 64/75] fix: LinkSuite put links outside of the suite, and
 relative ones led nowhere

---
 bench/suite.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bench/suite.go b/bench/suite.go
index cd2fc6e..54cb2a2 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -208,7 +208,11 @@ func (s *Suite) copyInsts(insts []string) error {
 func (s *Suite) linkInsts(insts []string) error {
 	iFmt := iFmtFor(len(insts))
 	for i, inst := range insts {
-		p := fmt.Sprintf(iFmt, i, exts(inst))
+		p := filepath.Join(s.Root, fmt.Sprintf(iFmt, i, exts(inst)))
+		inst, e := filepath.Abs(inst)
+		if e != nil {
+			return e
+		}
 		if e := os.Symlink(inst, p); e != nil {
 			return e
 		}
-- 
2.43.0


From 789b658b306340773a98b9ab1af6c3e5e1e3fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:39 +0000
Subject: [PATCH 65/75] fix: benchmark suites whose creation failed half way
 opened without error

---
 bench/suite.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 54cb2a2..0728060 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -52,6 +52,10 @@ func OpenSuite(root string) (*Suite, error) {
 	if e := res.readHashes(); e != nil {
 		return nil, e
 	}
+	if len(res.Map) != len(res.Insts) || len(res.Hashes) != len(res.Insts) {
+		return nil, fmt.Errorf("suite %s is incomplete: %d instances, %d names, %d hashes.",
+			root, len(res.Insts), len(res.Map), len(res.Hashes))
+	}
 	if e := res.readRuns(); e != nil {
 		return nil, e
 	}
@@ -187,7 +191,8 @@ func (s *Suite) copyInsts(insts []string) error {
 	iFmt := iFmtFor(len(insts))
 	for i, inst := range insts {
 		p := filepath.Join(s.Root, fmt.Sprintf(iFmt, i, exts(inst)))
-		w, e := os.OpenFile(p, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
+		part := filepath.Join(s.Root, "part")
+		w, e := os.OpenFile(part, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
 		if e != nil {
 			return e
 		}
@@ -199,8 +204,14 @@ func (s *Suite) copyInsts(insts []string) error {
 		if e != nil {
 			return e
 		}
-		w.Close()
 		r.Close()
+		if e := w.Close(); e != nil {
+			return e
+		}
+		// only complete instances get their name.
+		if e := os.Rename(part, p); e != nil {
+			return e
+		}
 	}
 	return nil
 }
@@ -388,8 +399,10 @@ func (s *Suite) writeMap() error {
 		return e
 	}
 	defer mf.Close()
-	for _, e := range s.Map {
-		fmt.Fprintln(mf, e)
+	for _, m := range s.Map {
+		if _, e := fmt.Fprintln(mf, m); e != nil {
+			return e
+		}
 	}
 	return nil
 }
@@ -400,8 +413,10 @@ func (s *Suite) writeHashes() error {
 		return e
 	}
 	defer hf.Close()
-	for _, e := range s.Hashes {
-		fmt.Fprintln(hf, e)
+	for _, h := range s.Hashes {
+		if _, e := fmt.Fprintln(hf, h); e != nil {
+			return e
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 64b597e4ccc726a1cbf6cb9b4fea2eba3b963b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 66/75] fix: benchmark runs opened with the environment of the
 reader, or not at all

---
 bench/run.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/bench/run.go b/bench/run.go
index 351a19b..973e240 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -239,19 +239,26 @@ func (r *Run) writeNumCpu() error {
 		return e
 	}
 	defer f.Close()
-	fmt.Fprintf(f, "%d\n", r.NumCPU)
-	return nil
+	_, e = fmt.Fprintf(f, "%d\n", r.NumCPU)
+	return e
 }
 
 func (r *Run) readEnv() error {
-	env := os.Environ()
+	s, e := p2s(runEnvPath(r.Root))
+	if e != nil {
+		return e
+	}
+	env := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
 	r.Env = make(map[string]string, len(env))
 	for _, kv := range env {
-		parts := strings.Split(kv, "=")
+		if kv == "" {
+			continue
+		}
+		parts := strings.SplitN(kv, "=", 2)
 		if len(parts) != 2 {
 			return fmt.Errorf("environ %s\n", kv)
 		}
-		r.Env[parts[0]] = parts[1]
+		r.Env[parts[0]] = envUnescape.Replace(parts[1])
 	}
 	return nil
 }
@@ -263,11 +270,19 @@ func (r *Run) writeEnv() error {
 	}
 	defer f.Close()
 	for k, v := range r.Env {
-		fmt.Fprintf(f, "%s=%s\n", k, v)
+		if _, e := fmt.Fprintf(f, "%s=%s\n", k, envEscape.Replace(v)); e != nil {
+			return e
+		}
 	}
 	return nil
 }
 
+// values in the environment may contain newlines.
+var (
+	envEscape   = strings.NewReplacer("\\", "\\\\", "\n", "\\n")
+	envUnescape = strings.NewReplacer("\\\\", "\\", "\\n", "\n")
+)
+
 func (r *Run) readTimeout() error {
 	p := runTimeoutPath(r.Root)
 	d, e := p2d(p)
-- 
2.43.0


From be1e981e63a4b664f19ba6f43ec5d4ca74ad94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:42 +0000
Subject: [PATCH 67/75] fix: run names could reach outside of the runs of a
 suite, or mix two runs; new runs were not listed

---
 bench/run.go   | 8 ++++++++
 bench/suite.go | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/bench/run.go b/bench/run.go
index 973e240..bbe4f25 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -96,7 +96,14 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 		return nil, fmt.Errorf("run name should not contain a directory")
 	}
 	name = fn
+	if name == "" || name == "." || name == ".." {
+		return nil, fmt.Errorf("bad run name %q", name)
+	}
+	if _, ste := os.Stat(filepath.Join(suiteRunDir(suite.Root), name)); ste == nil {
+		return nil, fmt.Errorf("run %s already exists.", name)
+	}
 	run := &Run{
+		Name:        name,
 		Cmd:         cmd,
 		Arch:        runtime.GOARCH,
 		Os:          runtime.GOOS,
@@ -147,6 +154,7 @@ func NewRun(suite *Suite, name, cmd string, ito, to time.Duration) (*Run, error)
 	if e := run.writeStart(); e != nil {
 		return nil, e
 	}
+	suite.Runs = append(suite.Runs, run)
 	return run, nil
 }
 
diff --git a/bench/suite.go b/bench/suite.go
index 0728060..93b6b8c 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -106,6 +106,9 @@ func (s *Suite) Run(name, cmd string, ito, to time.Duration) (*Run, error) {
 
 // RemoveRun removes a run named name from the suite s.
 func (s *Suite) RemoveRun(name string) error {
+	if d, fn := filepath.Split(name); d != "" || fn == "" || fn == "." || fn == ".." {
+		return fmt.Errorf("bad run name %q", name)
+	}
 	p := filepath.Join(suiteRunDir(s.Root), name)
 	e := os.RemoveAll(p)
 	if e != nil {
-- 
2.43.0


From 46c5c1926a7ccb2044282740473a18b4de8b958e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 68/75] fix: results of benchmark runs were not the same when
 reopened

---
 bench/instrun.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/bench/instrun.go b/bench/instrun.go
index 6c54a67..545d13f 100644
--- a/bench/instrun.go
+++ b/bench/instrun.go
@@ -10,6 +10,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"sort"
 	"strings"
 	"sync"
 	"syscall"
@@ -67,7 +68,10 @@ func OpenInstRun(run *Run, inst int) (*InstRun, error) {
 	if e != nil {
 		return nil, e
 	}
-	ir.Error = ie
+	if !strings.HasSuffix(ie, "\n") {
+		return nil, fmt.Errorf("incomplete inst run %s", p)
+	}
+	ir.Error = strings.TrimSuffix(ie, "\n")
 	return ir, nil
 }
 
@@ -90,6 +94,10 @@ func NewInstRun(run *Run, inst int) (*InstRun, error) {
 	if e := ir.save(); e != nil {
 		return nil, e
 	}
+	run.InstRuns = append(run.InstRuns, ir)
+	sort.SliceStable(run.InstRuns, func(i, j int) bool {
+		return run.InstRuns[i].Inst < run.InstRuns[j].Inst
+	})
 	return ir, nil
 }
 
@@ -142,6 +150,9 @@ func (ir *InstRun) do() {
 	ialarm := time.After(ir.dur())
 	if e := cmd.Start(); e != nil {
 		log.Printf("error starting command '%s': %s\n", ir.Run.Cmd, e)
+		ir.Error = e.Error()
+		ir.Out.Close()
+		ir.Err.Close()
 		return
 	}
 	var wg sync.WaitGroup
@@ -247,8 +258,14 @@ func (ir *InstRun) save() error {
 	if e != nil {
 		return e
 	}
-	fmt.Fprintf(f, "%d\n", ir.Result)
+	_, e = fmt.Fprintf(f, "%d\n", ir.Result)
 	f.Close()
+	if e != nil {
+		return e
+	}
+	if e := t2f(iRunStartPath(p), ir.Start); e != nil {
+		return e
+	}
 	if e := d2f(iRunDurPath(p), ir.Dur); e != nil {
 		return e
 	}
-- 
2.43.0


From 48e5c8484e23442e25301fb5ca7c256e709908c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 69/75] fix: RunSelect changed the suite it selects from

---
 bench/suite.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bench/suite.go b/bench/suite.go
index 93b6b8c..0551610 100644
--- a/bench/suite.go
+++ b/bench/suite.go
@@ -132,18 +132,16 @@ func (s *Suite) RemoveRun(name string) error {
 func (s *Suite) RunSelect(filt func(*Run) bool) *Suite {
 	res := &Suite{}
 	*res = *s
-	j := 0
-	for _, run := range res.Runs {
+	res.Runs = nil
+	for _, run := range s.Runs {
 		if !filt(run) {
 			continue
 		}
 		rr := &Run{}
 		*rr = *run
 		rr.Suite = res
-		res.Runs[j] = rr
-		j++
+		res.Runs = append(res.Runs, rr)
 	}
-	res.Runs = res.Runs[:j]
 	return res
 }
 
-- 
2.43.0


From 3072ac67f660a838a41125f0618f7a7fee589e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 70/75] fix: system time was added to real time

---
 bench/cmp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index edc9205..e0502f9 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -73,7 +73,7 @@ func Times(r *Run) (real float64, user float64, sys float64) {
 	for _, ir := range r.InstRuns {
 		real += float64(ir.Dur) / sec
 		user += float64(ir.UDur) / sec
-		real += float64(ir.SDur) / sec
+		sys += float64(ir.SDur) / sec
 	}
 	return
 }
-- 
2.43.0


From 30ec0841c20ca97eaaf06f597795cc26b84984f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:46 +0000
Subject: [PATCH 71/75] fix: comparisons of benchmark runs with missing results
 panicked or mixed up instances

---
 bench/cmp.go       | 39 +++++++++++++++++++++++++++++++--------
 bench/run.go       | 10 ++++++++++
 cmd/bench/bench.go | 14 ++++++++------
 3 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/bench/cmp.go b/bench/cmp.go
index e0502f9..d36ed64 100644
--- a/bench/cmp.go
+++ b/bench/cmp.go
@@ -103,12 +103,18 @@ func NewScatter(r1, r2 *Run, iFilt func(suite *Suite, i int) bool) *Scatter {
 	s.Runs[1] = r2
 	s.Xs = make([]time.Duration, 0, len(r1.InstRuns))
 	for _, ir := range r1.InstRuns {
+		if r2.instRun(ir.Inst) == nil {
+			continue
+		}
 		if iFilt == nil || iFilt(ir.Run.Suite, ir.Inst) {
 			s.Xs = append(s.Xs, ir.Dur)
 		}
 	}
 	s.Ys = make([]time.Duration, 0, len(r1.InstRuns))
 	for _, ir := range r2.InstRuns {
+		if r1.instRun(ir.Inst) == nil {
+			continue
+		}
 		if iFilt == nil || iFilt(ir.Run.Suite, ir.Inst) {
 			s.Ys = append(s.Ys, ir.Dur)
 		}
@@ -145,6 +151,9 @@ func (s *Scatter) Utf8(n int) string {
 			maxDur = d
 		}
 	}
+	if maxDur == 0 {
+		maxDur = 1
+	}
 	for i, xd := range s.Xs {
 		yd := s.Ys[i]
 		xr := float64(xd) / float64(maxDur)
@@ -208,11 +217,11 @@ func NewCactus(suite *Suite, rFilt func(*Run) bool, iFilt func(*Suite, int) bool
 	cactus := &Cactus{
 		MaxDur: maxDur,
 		Runs:   runs}
-	M := len(suite.Runs[0].InstRuns)
 	for _, run := range runs {
+		M := len(run.InstRuns)
 		js := make([]int, 0, M)
 		for j := 0; j < M; j++ {
-			if iFilt == nil || iFilt(suite, j) {
+			if iFilt == nil || iFilt(suite, run.InstRuns[j].Inst) {
 				js = append(js, j)
 			}
 		}
@@ -256,6 +265,10 @@ func (c *Cactus) Utf8(N int) string {
 	var idx = func(x, y int) int {
 		return (N-1)*(2*N+1) - (y * (2*N + 1)) + 2*x
 	}
+	maxDur := c.MaxDur
+	if maxDur == 0 {
+		maxDur = 1
+	}
 	for ri, runPerm := range c.D {
 		run := c.Runs[ri]
 		tick := byte('0') + byte(ri) // change to unicode later for indexing.
@@ -264,7 +277,7 @@ func (c *Cactus) Utf8(N int) string {
 			jRatio := float64(j) / jDen
 			dj := int(jRatio * float64(N-1))
 			dur := run.InstRuns[p].Dur
-			ratio := float64(dur) / float64(c.MaxDur)
+			ratio := float64(dur) / float64(maxDur)
 			di := int(ratio * float64(N-1))
 			bidx := idx(dj, di)
 			if buf[bidx] == byte(' ') {
@@ -281,12 +294,12 @@ func (c *Cactus) Utf8(N int) string {
 	j := 0
 	legend := make([]string, 0, len(c.D))
 	for _, r := range ticks {
-		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
-		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
-		j++
 		if j >= len(c.D) {
 			break
 		}
+		s = strings.Replace(s, fmt.Sprintf("%c", byte('0')+byte(j)), string(r), -1)
+		legend = append(legend, fmt.Sprintf("%s\t%s - %s\n", prefix, string(r), c.Runs[j].Name))
+		j++
 	}
 	lines := strings.Split(s, "\n")
 	pLines := make([]string, len(lines))
@@ -297,8 +310,14 @@ func (c *Cactus) Utf8(N int) string {
 	pLines[len(pLines)-1] = fmt.Sprintf("%s0s|%s", strings.Repeat(" ", len(mds)-2), lines[len(lines)-1])
 	s = strings.Join(pLines, "\n")
 
+	n := 0
+	for _, js := range c.D {
+		if len(js) > n {
+			n = len(js)
+		}
+	}
 	delim := strings.Repeat("-", 2*N)
-	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), len(c.D[0]))
+	sx := fmt.Sprintf("0%s%-5d", strings.Repeat(" ", 2*N+1-5), n)
 	return fmt.Sprintf("%s%s\n%s%s\n%s", s, delim, prefix, sx, strings.Join(legend, ""))
 }
 
@@ -349,7 +368,11 @@ func Listing(s *Suite, filt func(*Run) bool) string {
 		col := make([]string, len(s.Insts)+1)
 		col[0] = fmt.Sprintf(" %-10s ", rtrunc(run.Name, 10))
 		for j := range s.Insts {
-			ir := run.InstRuns[j]
+			ir := run.instRun(j)
+			if ir == nil {
+				col[j+1] = fmt.Sprintf(" - % 8s ", "")
+				continue
+			}
 			s := "s"
 			if ir.Result == -1 {
 				s = "u"
diff --git a/bench/run.go b/bench/run.go
index bbe4f25..cb69154 100644
--- a/bench/run.go
+++ b/bench/run.go
@@ -166,6 +166,16 @@ func (r *Run) Do(i int) (*InstRun, error) {
 	return NewInstRun(r, i)
 }
 
+// instRun gives the result for instance i, nil if there is none.
+func (r *Run) instRun(i int) *InstRun {
+	for _, ir := range r.InstRuns {
+		if ir.Inst == i {
+			return ir
+		}
+	}
+	return nil
+}
+
 func (r *Run) readCmd() error {
 	s, e := p2s(runCmdPath(r.Root))
 	if e != nil {
diff --git a/cmd/bench/bench.go b/cmd/bench/bench.go
index 4000e00..4979025 100644
--- a/cmd/bench/bench.go
+++ b/cmd/bench/bench.go
@@ -163,9 +163,10 @@ func (co *cmpOptsT) runFilt() func(*bench.Run) bool {
 
 func satFilt(s *bench.Suite, i int) bool {
 	for _, r := range s.Runs {
-		ir := r.InstRuns[i]
-		if ir.Result == 1 {
-			return true
+		for _, ir := range r.InstRuns {
+			if ir.Inst == i && ir.Result == 1 {
+				return true
+			}
 		}
 	}
 	return false
@@ -173,9 +174,10 @@ func satFilt(s *bench.Suite, i int) bool {
 
 func unsatFilt(s *bench.Suite, i int) bool {
 	for _, r := range s.Runs {
-		ir := r.InstRuns[i]
-		if ir.Result == -1 {
-			return true
+		for _, ir := range r.InstRuns {
+			if ir.Inst == i && ir.Result == -1 {
+				return true
+			}
 		}
 	}
 	return false
-- 
2.43.0


From 31e7a5d7dd60c7ae2c52a2f7160afdd8654195d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:00 +0000
Subject: [PATCH 72/75] fix: tracing was read by handlers while Trace changed
 it

---
 crisp/handler.go | 40 ++++++++++++++++++++++++++++------------
 crisp/server.go  |  4 ++--
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/crisp/handler.go b/crisp/handler.go
index fcb8843..64ea380 100644
--- a/crisp/handler.go
+++ b/crisp/handler.go
@@ -8,6 +8,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"sync/atomic"
 
 	"github.com/go-air/gini"
 	"github.com/go-air/gini/inter"
@@ -22,6 +23,21 @@ func init() {
 	}
 }
 
+// traceFlag tells handlers whether to trace; it can change while they run.
+type traceFlag int32
+
+func (t *traceFlag) on() bool {
+	return atomic.LoadInt32((*int32)(t)) != 0
+}
+
+func (t *traceFlag) set(b bool) {
+	v := int32(0)
+	if b {
+		v = 1
+	}
+	atomic.StoreInt32((*int32)(t), v)
+}
+
 // Type Handler holds state for managing a single connection
 type Handler struct {
 	id        int
@@ -33,18 +49,18 @@ type Handler struct {
 	res       int  // result of the last solve
 	proto     ProtoPoint
 	ms        []z.Lit
-	trace     *bool
+	trace     *traceFlag
 	steps     int
 }
 
-func newHandler(i int, tr *bool) *Handler {
+func newHandler(i int, tr *traceFlag) *Handler {
 	h := &Handler{
 		id:    i,
 		proto: Unknown,
 		ms:    make([]z.Lit, 0, 1024),
 		trace: tr}
 	if os.Getenv("TRACE_CRISP") != "" {
-		*tr = true
+		tr.set(true)
 	}
 	return h
 }
@@ -56,11 +72,11 @@ func (h *Handler) serve(cc <-chan net.Conn) {
 			// shutdown, channel closed
 			return
 		}
-		if *h.trace {
+		if h.trace.on() {
 			log.Printf("%d start serving %+v.\n", h.id, conn)
 		}
 		h.serveConn(conn)
-		if *h.trace {
+		if h.trace.on() {
 			log.Printf("%d done serving.\n", h.id)
 		}
 	}
@@ -81,7 +97,7 @@ func (h *Handler) serveConn(conn net.Conn) {
 }
 
 func (h *Handler) cleanup() {
-	if *h.trace {
+	if h.trace.on() {
 		log.Printf("%d cleanup\n", h.id)
 	}
 	h.conn.Close()
@@ -108,7 +124,7 @@ func (h *Handler) Crisp() error {
 			return e
 		}
 		p := ProtoPoint(u)
-		if *h.trace {
+		if h.trace.on() {
 			log.Printf("%d received %s\n", h.id, p)
 		}
 		if h.solving && p != Continue && p != End && p != Quit {
@@ -223,7 +239,7 @@ func (h *Handler) handleAdd() error {
 			return e
 		}
 		if m == uint32(End) {
-			if *h.trace {
+			if h.trace.on() {
 				log.Printf("%d received %s\n", h.id, End)
 			}
 			return nil
@@ -295,7 +311,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Unsat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.trace.on() {
 			log.Printf("%d sent %s\n", h.id, Unsat)
 		}
 		return nil
@@ -303,7 +319,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(uint32(Sat)); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.trace.on() {
 			log.Printf("%d sent %s\n", h.id, Sat)
 		}
 		return nil
@@ -315,7 +331,7 @@ func (h *Handler) sendRes(res int, end bool) error {
 		if e := h.uio.writeflush(op); e != nil {
 			return e
 		}
-		if *h.trace {
+		if h.trace.on() {
 			log.Printf("%d sent %s\n", h.id, Unknown)
 		}
 		return nil
@@ -461,7 +477,7 @@ func (h *Handler) handleQuit() error {
 
 // Error tells the client about e; the connection is closed afterwards.
 func (h *Handler) Error(e ProtoErr) error {
-	if *h.trace {
+	if h.trace.on() {
 		log.Printf("%d <error> %s\n", h.id, e)
 	}
 	if e := h.uio.writeu32(uint32(Error)); e != nil {
diff --git a/crisp/server.go b/crisp/server.go
index 0ad87d3..e64d923 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -20,7 +20,7 @@ type Server struct {
 	lastSolve  ProtoPoint
 	maxClients int
 	connChan   chan net.Conn
-	trace      bool
+	trace      traceFlag
 	// The thing which generates the solvers for each connection.
 }
 
@@ -77,7 +77,7 @@ func (s *Server) Serve() error {
 func (s *Server) Trace(b bool) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
-	s.trace = b
+	s.trace.set(b)
 }
 
 // Shutdown stops listening for connections
-- 
2.43.0


From a51d9df091c4c178bc28adf37b63a61e4c2715fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 73/75] fix: setting the time limit of a request generator
 raced with its other uses

---
 ax/req.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ax/req.go b/ax/req.go
index 90ab68c..70cf2d6 100644
--- a/ax/req.go
+++ b/ax/req.go
@@ -99,6 +99,8 @@ func (g *RequestGen) New(ms ...z.Lit) *Request {
 // Limit causes requests generated by g.New() to
 // have time limit d.
 func (g *RequestGen) Limit(d time.Duration) {
+	g.mu.Lock()
+	defer g.mu.Unlock()
 	g.limit = d
 }
 
-- 
2.43.0


From db408b116c301b368f78de88124dcdfb0a4a9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 74/75] fix: the printed form of a unix socket address lost its
 @

---
 crisp/addr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/addr.go b/crisp/addr.go
index 0679c5a..11af95b 100644
--- a/crisp/addr.go
+++ b/crisp/addr.go
@@ -30,7 +30,7 @@ func ParseAddr(s string) *Addr {
 // String puts the address back in the format provided
 // to ParseAddr.
 func (a *Addr) String() string {
-	if a.Network == "@" {
+	if a.Network == "unix" {
 		return fmt.Sprintf("@%s", a.NetAddr)
 	}
 	return fmt.Sprintf("%s", a.NetAddr)
-- 
2.43.0


From fab332006683234df03cfc5f446c43c7f22f88e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:58 +0000
Subject: [PATCH 75/75] fix: shutting down a server on a unix socket failed and
 could remove the socket of its successor

---
 crisp/server.go | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/crisp/server.go b/crisp/server.go
index e64d923..5a83a01 100644
--- a/crisp/server.go
+++ b/crisp/server.go
@@ -82,18 +82,9 @@ func (s *Server) Trace(b bool) {
 
 // Shutdown stops listening for connections
 func (s *Server) Shutdown() error {
-	var e error
-	e = s.listener.Close()
-	if s.addr.Network == "unix" {
-		if rme := os.Remove(s.addr.NetAddr); rme != nil {
-			if e != nil {
-				e = fmt.Errorf("shutdown errors: %s, %s", e, rme)
-			} else {
-				e = fmt.Errorf("shutdown error: %s", rme)
-			}
-		}
-	}
-	return e
+	// this removes the socket if there is one; later calls must not, there
+	// may be another server by then.
+	return s.listener.Close()
 }
 
 // ListenAndServer starts a CRISP server
-- 
2.43.0


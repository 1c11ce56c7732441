#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs=None,state=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
      "anchors":{"files":files,"state":state or [],"mechanism":[{"name":a,"where":b} for a,b in mech],
                 "observe_at":obs or [],"hook_needed":hook}})

p("C01","Solve verdicts and models are right for every clause set",
 "For every finite set of clauses (including empty, unit, duplicate-literal and tautological ones) and every set of assumptions, Solve terminates and returns 1 exactly when some assignment satisfies all clauses and assumptions, and -1 exactly when none does. After a 1, the values reported by Value make every clause and every assumption true, and Value of a literal and of its negation are opposite for every variable in use. The verdict does not depend on clause order, literal order, capacity hints or the numbering of variables.",
 ["inputs","configurations"],"every clause set over a few variables, in several presentations (orders, duplicates, tautologies, capacity hints, sparse numbering), times every assumption set",
 "Tests run a few hand-written formulas and random/pigeon-hole families against no independent oracle; they never sweep a space of formulas or the corner clauses (empty, tautological, duplicated).",
 ["gini.go","internal/xo/s.go","internal/xo/cdb.go","internal/xo/trail.go","internal/xo/derive.go","internal/xo/guess.go"],
 [("clause simplification on add","internal/xo/cdb.go"),("unit propagation","internal/xo/trail.go"),("conflict analysis","internal/xo/derive.go"),("search loop","internal/xo/s.go")],["Gini.Solve","Gini.Value"])

p("C02","Incremental solving: every history of Add/Assume/Solve gets right answers",
 "In every sequence of Add, Assume and Solve calls on one solver, each Solve answers for exactly the clauses added so far plus the assumptions made since the previous Solve, whatever was answered, learned or failed before. Assumptions hold for one Solve only, adding clauses after any answer is always possible, once the clauses alone are unsatisfiable every later Solve returns -1, and fresh variables from Lit are unconstrained and larger than every variable used before.",
 ["histories"],"every operation sequence up to a depth over small alphabets of clauses, assumptions and fresh-variable requests",
 "Tests use a handful of incremental scripts; interactions between earlier learned facts, failed assumptions, repeated solves on an unsatisfiable problem and later additions need all histories.",
 ["gini.go","internal/xo/s.go","internal/xo/trail.go","internal/xo/cdb.go"],
 [("clean-up of the previous solve","internal/xo/s.go"),("assumption handling","internal/xo/s.go"),("capacity growth","internal/xo/vars.go")],["Gini.Add","Gini.Assume","Gini.Solve","Gini.Lit","Gini.MaxVar"])

p("C03","Failed assumptions (Why) are assumptions and suffice for unsatisfiability",
 "After any Solve or Test that returned -1, Why returns only literals that are currently assumed (by untested assumptions of that call or by enclosing tests), and the clauses together with just those literals are unsatisfiable; when the clauses alone are unsatisfiable and no assumption is needed this includes the empty set being acceptable. Asking Why, once or several times, does not change later answers.",
 ["histories","inputs"],"every clause set over a few variables times every assumption sequence (repeats, contradictory pairs, fixed literals), asked after Solve, after Test and inside nested scopes",
 "Tests check a few single failures; soundness of a core must hold for every implication graph and assumption order.",
 ["gini.go","internal/xo/s.go"],[("final conflict analysis","internal/xo/s.go")],["Gini.Why"])

p("C04","Test/Untest scopes are sound and fully undone",
 "Test returns 1 only if the clauses and current assumptions are satisfied by the values then reported, -1 only if they are unsatisfiable, and otherwise every literal it returns is a consequence of the clauses plus the assumptions in force and includes the newly tested assumptions. Tested assumptions stay in force for later Solve, Test and Why until the matching Untest, untested ones last for one Solve only, and scopes nest. After Untest (returning 0) the solver behaves as if the scope had never been opened, and Untest returns -1 only if the remaining scopes' assumptions are inconsistent with the clauses.",
 ["histories"],"every sequence of Assume/Test/Untest/Solve/Why/Add operations up to a depth over all small formulas of a family",
 "Tests walk a few scopes on random formulas with no oracle; the interplay of learned units below scopes, failed tests and nested solves needs exhaustive histories.",
 ["internal/xo/s.go","internal/xo/trail.go","inter/s.go"],[("test levels","internal/xo/s.go"),("backtracking with late units","internal/xo/trail.go")],["Gini.Test","Gini.Untest","Gini.Solve","Gini.Why"])

p("C05","Reasons form a sound acyclic implication graph",
 "For every literal reported by a Test that returned 0 or 1, Reasons returns a set of literals which are themselves true at that point and which, with the clauses added so far, imply that literal; an assumption or otherwise unexplained literal has no reasons. Following reasons from any such literal never comes back to it, and every chain ends in assumptions in force or in facts implied by the clauses alone.",
 ["histories","inputs"],"every clause set of a family times assumption scripts with nested tests and solves in between",
 "Tests check only that a graph for a fixed formula has no cycles; soundness of each reason for binary, long and learned clauses is not checked.",
 ["internal/xo/s.go","internal/xo/trail.go","gini.go"],[("implied literal kept first in its clause","internal/xo/trail.go"),("Reasons","internal/xo/s.go")],["Gini.Reasons"])

p("C06","Activation literals switch clauses on exactly while assumed and recycle safely",
 "A clause added with Activate or ActivateWith constrains exactly those Solve calls in which its activation literal is assumed; without the assumption, or after Deactivate, answers are those of the clauses without it. Deactivate removes only the clauses bound to that literal and, however literals are recycled by later activations, clauses activated later or permanently added keep exactly their own effect. No sequence of legal activation operations panics.",
 ["histories"],"every sequence of add/activate/activate-with/deactivate/solve operations up to a depth with non-empty clauses",
 "Tests activate random clauses with weak checks; recycling a literal after units over it were learned, or after its clauses served as reasons, depends on the history.",
 ["internal/xo/active.go","internal/xo/cdb.go","internal/xo/cgc.go","internal/xo/s.go","inter/s.go"],[("recycling of activation literals","internal/xo/active.go"),("removal of clauses","internal/xo/cgc.go")],["Gini.Activate","Gini.ActivateWith","Gini.Deactivate","Gini.ActivationLit","Gini.Solve"])

p("C07","A copied solver is equivalent and fully independent",
 "At every point of every history, Copy (or SCopy) yields a solver that answers every continuation as the original would be required to: same clauses, pending assumptions, test scopes, activation state and, right after an answer, the same values and failed assumptions. The copy also takes over the whole search state, so the same continuation runs exactly as it would have on the original. Operations on either never affect the other, including in concurrent use and for copies of copies.",
 ["histories"],"every prefix of operations, a copy, then every pair of interleaved continuations on original and copy",
 "Tests copy once and solve the same formula; sharing of one slice or missing one field only shows for particular prefixes and continuations.",
 ["gini.go","internal/xo/s.go","internal/xo/cdb.go","internal/xo/guess.go","internal/xo/trail.go","internal/xo/derive.go","internal/xo/vars.go","internal/xo/active.go","internal/xo/cgc.go","internal/xo/cdat.go"],[("deep copies of each component","internal/xo")],["Gini.Copy","Gini.SCopy"])

p("C08","Learning, clause deletion, compaction, restarts and growth never change answers",
 "However long a search runs and however many clauses it learns, discards, or moves in memory, and however often it restarts or grows its variable capacity, verdicts, models, failed assumptions and implied literals stay exactly those of the added clauses, and Write still emits a formula equivalent to the added clauses. Deleting or moving clauses never loses an added clause, and never leaves a value unexplained or explained by a wrong clause.",
 ["histories","configurations"],"families of formulas and incremental histories under maintenance schedules scaled so that restarts, garbage collection and compaction happen at (almost) every step",
 "With shipped thresholds the maintenance code hardly runs on small inputs, and the tests that make it run have no oracle for the answers.",
 ["internal/xo/cgc.go","internal/xo/cdat.go","internal/xo/cdb.go","internal/xo/s.go","internal/xo/luby.go","internal/xo/watch.go","internal/xo/guess.go"],[("garbage collection of learnts","internal/xo/cgc.go"),("compaction and relocation","internal/xo/cdat.go"),("restarts","internal/xo/s.go")],["Gini.Solve","Gini.Write"])

p("C09","Background solving: one right result under every interleaving, no deadlock",
 "For every interleaving of a background solve with a controlling goroutine that uses Test, Try, Pause/Unpause, Stop and Wait in the documented ways, every call returns, exactly one result is delivered, and a non-zero result is the right verdict. Stop always ends the solve, a paused solve makes no progress and can be copied, and Unpause resumes it; afterwards the solver can be used again, synchronously or in the background, with right answers. Monitored solves (TryStats) deliver their reports and their result, stop when their time is over, and can be read and repeated. No documented use of these calls has a data race.",
 ["schedules","fault_sequences"],"all interleavings of solver, controller and timers, with the solve finishing before, between or after any control step",
 "Tests run each control call once with sleeps, so they see one or two schedules; lost wake-ups and deadlocks need particular orders.",
 ["internal/xo/ctl.go","internal/xo/s.go","inter/solve.go","gini.go"],[("control channel protocol","internal/xo/ctl.go"),("locks held during solving","internal/xo/s.go")],["inter.Solve methods"])

p("C10","Timeouts are only timeouts: Try is sound and leaves no trace",
 "Try returns 0 only because its time was up (or was not positive), otherwise the right verdict with its model or failed assumptions, and it does return 0 once its time is up while the search is still far from done; Solve never returns 0 unless stopped. Wherever in the search the timeout or stop strikes, the solver stays usable: later Solve, Try, Test, Add and Assume calls answer exactly as if the interrupted call had not happened, apart from its assumptions having been consumed.",
 ["fault_sequences","histories"],"the timeout striking at every point of the search where it can, at every position of small incremental histories",
 "Tests time out a single solve of a hard formula; what happens to the calls after it, for each point where the timeout can strike, is not examined.",
 ["internal/xo/s.go","internal/xo/ctl.go","gini.go"],[("deadline check in search loop","internal/xo/s.go")],["Gini.Try","Gini.Solve"])

p("C11","DIMACS CNF is read exactly, however it is chunked, and bad input is an error",
 "Reading well-formed DIMACS CNF text yields exactly its clauses, in order, independently of comments, white space layout and of how the reader splits the data into pieces; text that is not well formed gives an error, never a panic, a hang or a silently different formula. In strict mode the header counts are enforced.",
 ["inputs","fault_sequences"],"all short texts over a token alphabet, all chunkings of representative files, all truncations and single-byte edits, reader errors at every offset",
 "Tests parse a few fixed files in one piece.",
 ["dimacs/cnf.go","dimacs/cfilt.go","dimacs/int.go","dimacs/lit.go","dimacs/vis.go","internal/xo/dimacs.go","gini.go"],[("comment filter state machine","dimacs/cfilt.go"),("number reader","dimacs/int.go")],["dimacs.ReadCnf","dimacs.ReadCnfStrict","gini.NewDimacs"])

p("C12","ICNF and solver-output texts are read exactly",
 "Reading an incremental CNF file yields exactly its clauses and assumption cubes in file order, and reading solver output yields exactly the stated result and the listed model literals; layout and chunking make no difference, and malformed text gives an error rather than a panic, hang or different content.",
 ["inputs","fault_sequences"],"all short texts over the formats' token alphabets, all chunkings and truncations of representative files",
 "Tests read one or two fixed strings.",
 ["dimacs/icnf.go","dimacs/solve.go","dimacs/int.go","dimacs/vis.go"],[("icnf line dispatcher","dimacs/icnf.go"),("solver output state machine","dimacs/solve.go")],["dimacs.ReadICnf","dimacs.ReadSolve"])

p("C13","Literal, variable and DIMACS encodings are inverse to each other",
 "For every variable and sign, converting between literals, variables and signed DIMACS integers and back is the identity, negation is an involution that keeps the variable and flips the sign, and text output of a literal is its DIMACS number. A formula written with Write and read back has the same models over its variables, for every history of additions.",
 ["inputs","histories"],"all variables up to a bound and the boundary values of the range; all small clause sets with units and learned facts written and re-read",
 "Tests convert a few literals; nothing reads back a formula written after solving.",
 ["z/lit.go","z/var.go","dimacs/lit.go","internal/xo/cdb.go","gini.go"],[("bit encoding","z/lit.go"),("formula writer","internal/xo/cdb.go")],["z.Lit","z.Var","Gini.Write"])

p("C14","Circuit construction preserves meaning",
 "Every literal returned by the circuit builders (And, Or, Xor, Choice, Implies and their list forms) denotes exactly that Boolean function of its arguments under every assignment, including constant, repeated and complementary arguments and however much the circuit has grown or been copied. Single-assignment and 64-way parallel evaluation agree with that meaning for every node including the constants, and structurally identical gates are the same literal.",
 ["programs","inputs"],"every construction program up to a size over a few inputs and constants, every assignment, across every internal table growth",
 "Tests evaluate a few gates and random circuits for consistency between two evaluators, not against an independent meaning.",
 ["logic/c.go"],[("simplification and structural hashing","logic/c.go"),("evaluation","logic/c.go"),("table growth","logic/c.go")],["logic.C"])

p("C15","CNF conversion of circuits is exact and incremental",
 "The clauses produced for a circuit, whether all of it, the cones of given roots, or incrementally since earlier calls, are satisfied exactly by the assignments in which every converted gate equals its function of the inputs: any input assignment extends to exactly one model on the converted cone. Incremental conversion over any sequence of calls emits each gate's definition exactly once and never omits one that a requested root needs.",
 ["programs","histories"],"every small circuit, every root set and every sequence of incremental conversions interleaved with construction",
 "Tests solve a few equivalence miters; missing or duplicated gate definitions depend on root order and history.",
 ["logic/c.go"],[("Tseitin translation","logic/c.go"),("marks for incremental conversion","logic/c.go")],["logic.C.ToCnf","logic.C.ToCnfFrom","logic.C.CnfSince"])

p("C16","Cardinality constraints count exactly",
 "For every list of literals (any length, repeated or negated or constant entries) and every bound, the literals for 'at most', 'at least', 'less than' and 'more than' k evaluate under every assignment to the truth of the stated comparison with the number of true literals in the list.",
 ["inputs"],"every list length up to a bound, every k, every assignment, repeated/complementary/constant entries",
 "Tests try random assignments on a few sizes.",
 ["logic/card.go"],[("sorting network","logic/card.go")],["logic.CardSort"])

p("C17","Sequential circuits unroll to what simulation computes",
 "For every sequential circuit (latches with any reset value, any next-state functions including other latches, inputs and constants) the unrolled literal of any signal at any step denotes exactly the value simulation gives that signal at that step as a function of the per-step inputs and the unknown initial values. The order in which signals and steps are requested makes no difference, each input and step has its own variable, and copying the circuit preserves all of this.",
 ["programs","histories"],"every small circuit shape, all query orders up to a depth, all input sequences",
 "Tests unroll one or two counters in one order.",
 ["logic/s.go","logic/roll.go"],[("latch kinds","logic/s.go"),("unroller memo tables","logic/roll.go")],["logic.S","logic.Roll"])

p("C18","AIGER files round-trip with the same behaviour",
 "Writing any transition system in ASCII or binary AIGER and reading it back yields a system with the same inputs, latches, reset values, outputs, bad states, constraints, justice and fairness properties, names, and the same behaviour for every input sequence, including constant and negated signals and gates not reachable from the outputs. Reading a standard-conforming file gives the signals the AIGER standard assigns them.",
 ["programs","inputs"],"every small transition system with every choice of signals and reset values, both formats, compared by exhaustive simulation",
 "Tests read sample files and check that a round trip gives no error.",
 ["logic/aiger/aiger.go","logic/aiger/dfs.go"],[("writers","logic/aiger/aiger.go"),("readers","logic/aiger/aiger.go")],["aiger.T.WriteAscii","aiger.T.WriteBinary","aiger.ReadAscii","aiger.ReadBinary"])

p("C19","Malformed AIGER input is rejected, not crashed on",
 "Reading any byte sequence as AIGER either returns a system or an error within bounded time; no truncation, byte change, undefined, redefined, cyclic or out-of-range literal makes the readers panic or loop, or yields a system when the standard declares the file invalid because a literal is undefined, redefined or out of range.",
 ["inputs","fault_sequences"],"every truncation and every single-byte or single-token edit of representative files in both formats, reader errors at every offset",
 "Tests only read valid files.",
 ["logic/aiger/aiger.go"],[("header and literal checks","logic/aiger/aiger.go")],["aiger.ReadAscii","aiger.ReadBinary"])

p("C20","Inner/outer variable mapping is consistent",
 "A solver that uses hidden inner variables answers on the user's (outer) variables exactly as a plain solver would: clauses, assumptions, models, failed assumptions, tests and reasons all refer to the same outer variables, and inner variables never collide with outer ones, whatever the order of allocation, freeing and first use. Mapping a literal inwards and back is the identity and keeps its sign.",
 ["histories"],"every sequence of inner allocation, freeing, first use of outer variables, clause additions and queries up to a depth",
 "Tests map a few variables; the wrapped solver is not compared with a plain one.",
 ["sv.go","z/dv.go","inter/s.go"],[("variable tables","z/dv.go"),("translation wrapper","sv.go")],["gini.NewSv","gini.NewSvVars","z.Vars"])

p("C21","Parallel assumption exchange answers each request once and correctly",
 "Every request submitted to the parallel assumption exchanger gets exactly one response, for that request, with a right verdict (or 0 only if its limit expired or the exchange was stopped), a right model or failed assumptions when asked for, whatever the interleaving of workers, limits and submissions. Stopping ends every worker and never blocks; responses and requests are not lost, duplicated or mixed up. No use of the exchanger by several clients has a data race.",
 ["schedules","histories"],"all interleavings of a few workers, submissions, limits and stop",
 "Tests run one workload under the natural scheduler.",
 ["ax/ax.go","ax/req.go","ax/resp.go"],[("serve loop","ax/ax.go"),("worker loop","ax/ax.go")],["ax.T"])

p("C22","The CRISP wire encoding is lossless under every chunking",
 "Every value a CRISP connection can carry is decoded to itself by the receiver, whatever the sequence of values, buffer sizes and splits of the byte stream by the transport, with reads and writes in any order on one connection. Truncated encodings, encodings of numbers outside 32 bits or of more than 5 bytes, and transport errors surface as errors, never as wrong values, panics or hangs.",
 ["inputs","fault_sequences"],"all boundary values and short sequences of them, every split of the stream, every failure offset, every buffer state",
 "Tests send some random values through a pipe.",
 ["crisp/vu32io.go"],[("variable length integers and buffering","crisp/vu32io.go")],["crisp client and server connections"],None,"in-package test file through an overlay, or a stub connection under client and server")

p("C23","A CRISP session answers as a local solver would",
 "For every sequence of client operations (add, assume, solve, continue, stop, values, models, failed assumptions, reset, reconnects), what the client observes equals what a local solver fed the same clauses and assumptions gives: right verdicts, models that satisfy all clauses, failed assumptions that suffice, with no stale verdicts or failed assumptions from earlier solves. When the connection breaks, operations report errors and never wrong answers. Sessions on one server never influence each other, no matter when the server's tracing is switched, and there is no data race between them.",
 ["histories"],"every client operation sequence up to a depth over a small alphabet, one and several connections, breaks at every byte",
 "Tests run one or two sessions.",
 ["crisp/client.go","crisp/handler.go","crisp/server.go","crisp/doc.go"],[("client protocol","crisp/client.go"),("server protocol","crisp/handler.go")],["crisp.Client","crisp.Server"])

p("C24","A CRISP server survives any byte stream and any disconnect",
 "Whatever bytes a peer sends (within the memory that the variables it announces need), in whatever order, and wherever it disconnects, the server process does not crash, ends that session (reporting the documented error for out-of-order or failed operations where the protocol defines one), and continues to serve other sessions correctly. Shutting a server down stops it accepting and reports success; it leaves running sessions alone and never affects a server started later on the same address.",
 ["inputs","fault_sequences"],"every operation-code sequence up to a depth with boundary arguments, disconnects at every byte offset of representative sessions",
 "Tests only use the well-behaved client.",
 ["crisp/handler.go","crisp/server.go","crisp/proto.go","crisp/err.go"],[("operation dispatcher","crisp/handler.go")],["crisp.Server"])

p("C25","Formula generators encode the combinatorial problem they name",
 "For every parameter value, the generated formula is satisfiable exactly when the named problem has a solution and its models are exactly that problem's solutions: pigeon-hole placements, partitions, binary cycles, Pythagorean-triple colourings and k-colourings of the generated graph; random 3-CNF has the requested number of clauses of three distinct variables, random graphs are simple and symmetric with the requested number of edges, random cubes have distinct variables within their bounds, whatever the random choices.",
 ["inputs","configurations"],"all small parameter values, all graphs on a few vertices, all assignments",
 "Tests solve a few instances, or only check that generation terminates.",
 ["gen/gen.go","gen/color.go","gen/pt.go","gen/cubes.go","gen/rands.go"],[("encoders","gen")],["gen functions"])

p("C26","The gini command reports what is true",
 "For every input file the gini command prints exactly one status line per problem that agrees with the truth (or UNKNOWN if it runs out of time), with -satcomp exits with 10 or 20 to match, and any model, failed assumptions or values it prints are complete and correct for that problem; unreadable or malformed files are reported as errors, not as results. Incremental (icnf) files get one right answer per cube, in order.",
 ["inputs","configurations"],"all formulas of a family times the output options, as plain and compressed files, and all small icnf scripts",
 "There are no tests of the commands.",
 ["cmd/gini/main.go","cmd/gini/icnf.go"],[("output of results","cmd/gini/main.go")],["gini command line"])

p("C27","Benchmark suites and runs survive being saved and reopened",
 "A benchmark suite created from any set of files, and any runs recorded in it, are the same when the suite is opened again: same instances, names, hashes, results and times; an aborted creation or run leaves no suite that opens with different or missing instances without an error. Totals, summaries, listings and plots show exactly the recorded results, also of incomplete runs, and no operation on a suite changes anything outside of it or of the run concerned.",
 ["histories","crash_points"],"every small suite, every sequence of create/run/add/reopen up to a depth, stops after every file-system step",
 "There are no tests of this package.",
 ["bench/suite.go","bench/run.go","bench/instrun.go","bench/cmp.go"],[("suite directory layout","bench/suite.go"),("result files","bench/run.go")],["bench.Suite","bench.Run"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,sch)
print(len(P))

na_reason={}
EXL="exhaustive bounded enumeration of circuits and call sequences on the real code, against truth tables and direct simulation"
claimed.update({
 "C14":("model_checking",EXL,"Every builder call sequence up to the depth, under every assignment; large lists and circuits (stated sizes) under all assignments of up to 10 inputs or a fixed table."),
 "C15":("model_checking",EXL,"Every circuit of the family and every sequence of conversion calls up to the depth; models counted by truth table; circuits of up to 10000 gates in 6 patterns."),
 "C16":("model_checking",EXL,"Every literal list up to the length with repeats, negations and constants, every bound, every assignment; lists of up to 140 inputs under 64 fixed assignments each."),
 "C17":("model_checking",EXL,"Every sequential circuit of the family, every request order, every step up to the depth, every input sequence; steps up to 130 under 256 fixed assignments."),
})
claimed.update({
 "C18":("model_checking","exhaustive bounded enumeration of systems and file texts on the real readers and writers, against an independent reference parser and evaluator","Systems with at most 2 inputs, 2 latches and a few gates; behaviour compared as functions over all reachable states; larger systems (up to 8200 gates) under fixed assignments."),
 "C19":("model_checking","exhaustive enumeration of mutated, truncated and token-built file texts and of read-error points on the real readers, against an independent reference parser","Texts derived from 18 corpus files and several templates; other texts are not covered."),
})
EXT="exhaustive enumeration of token sequences, byte mutations, truncations, chunkings and read-error points on the real readers, against an independent reference grammar"
claimed.update({
 "C11":("model_checking",EXT,"All token sequences up to the length, all single-byte mutations of the corpus, all chunkings of 12-16 byte windows."),
 "C12":("model_checking",EXT,"All token sequences up to the length, all single-byte mutations of the corpus, all chunkings of 12-16 byte windows."),
})
claimed.update({
 "C20":("model_checking","exhaustive enumeration of operation sequences up to a depth on the real solver with hidden variables and on the real variable tables, in lock step with a truth-table and a bijection reference","Histories of up to 5-7 operations over 3-5 outer variables from 5 table states; table call sequences up to 6-7."),
})
claimed.update({
 "C25":("model_checking","exhaustive enumeration of small parameters, of all sequences of random choices (scripted source of randomness) and of all assignments, against a direct statement of each problem","Parameters up to 16-20 variables under all assignments, up to 400 around structured ones; random choices beyond the first few of a run are not varied."),
})
DPOR="stateless model checking of the real code under a controlled scheduler: every schedule of every small scenario, up to reordering of independent operations (dynamic partial order reduction, compared with unreduced enumeration)"
claimed.update({
 "C09":("model_checking",DPOR,"Controller scripts up to 5-6 steps over 15 small formulas; search thresholds scaled down; sequentially consistent interleavings at synchronisation operations; data races are looked for by the race detector in every schedule of a part of the scenarios."),
 "C21":("model_checking",DPOR,"One or two clients, up to 3 units and 3-4 requests; in most cases over a model solver that may take any time; sequentially consistent interleavings at synchronisation operations; data races are looked for by the race detector in every schedule of a part of the scenarios; tickers fire of their own accord a bounded number of times. Request identities: two clients of one generator, all schedules."),
})
DPOR2="stateless model checking of real client, server and solver over an in-memory network under a controlled scheduler: all schedules (dynamic partial order reduction) of every small script, message split and break-off point, against a truth-table and protocol reference"
claimed.update({
 "C22":("model_checking","exhaustive enumeration of values, byte strings, operation mixes, buffer sizes, chunkings and transport faults on the real encoder and decoder, against a reference codec","All values up to 2^20 and around every power of two, byte strings up to 6 bytes over boundary bytes, short mixes of reads and writes with every fault position."),
 "C23":("model_checking",DPOR2,"Sessions of up to 3 operations over the whole alphabet and 5 over a part of it (thorough 4 and 6), two clients at once, breaks at every byte of four sessions; formulas over four variables; larger ones (to 6300 variables) in one schedule each."),
 "C24":("model_checking",DPOR2,"Scripts of up to 3 protocol items out of 36, up to 4 over 12 (thorough 4 and 6), 3 arbitrary words, 2 arbitrary bytes, three sessions cut at every byte. Lifecycles: two servers on one address, every sequence of up to 5 steps (thorough 7) of starting, shutting down, connecting and ending sessions, all schedules. Memory a peer can make the server use by announcing huge variables is not bounded by the protocol and not covered."),
})
claimed.update({
 "C26":("model_checking","exhaustive enumeration of small formulas, incremental scripts, options, assumption lists, file kinds and time limits on the built command, against truth tables","Formulas over 3 variables, formulas of known answer, wide units, 10 kinds of contents; SIGINT output and exit codes without -satcomp are not judged."),
 "C27":("model_checking","exhaustive enumeration of suites, of operation sequences on runs, and of every crash and failure point of the file system operations (counted by an overlay on the current source), against a reference of what was recorded","Up to 3 files, 4 operations (thorough 5) on 3 instances; crashes are process ends in program order, not power failures."),
})

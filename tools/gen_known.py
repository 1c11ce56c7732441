#!/usr/bin/env python3
# (Re)writes known_findings.json from this list.
import json
fixed=[
 ("C02","bb832dc","Solve after an UNSAT answer without assumptions, followed by a further Add, answered 1 with a false model and ended the process (log.Fatal)"),
 ("C04","b0c7ab3","Solve after a Test which returned -1 forgot the tested assumptions and answered 1"),
 ("C06","e1e7b7f","Activate of a clause containing a literal already true panicked"),
 ("C06","e72cb42","garbage collection of a deactivated clause dropped the entry of another variable's reason, later reasons and cores were wrong"),
 ("C06","eeb97d2","a deactivated literal which had become fixed was handed out again, so the clause activated next was always on or always off"),
 ("C13","9a605aa","Write of a solver without clauses panicked (division by zero)"),
 ("C13","c1d9da1","Write left out unit clauses and wrote a wrong clause count"),
 ("C07","e71decf","Copy dropped decision decay and clause activity state, the copy ran a different search with infinite activities"),
 ("C10","005e376","after Try timed out or answered, a later Solve on the same solver returned 0 once the old deadline had passed"),
 ("C10","0e4c02d","Try with a non-positive duration left the assumptions in place for the next Solve"),
 ("C14","cc67ed3","a copied circuit had an empty hash table of the wrong layout: gates built on the copy were not shared with existing ones"),
 ("C14","1fe13b8","Eval64 gave the constant true only in lane 0"),
 ("C14","7e03a7f","InPos listed the constant as an input"),
 ("C18","fd95d61","aiger.Copy dropped inputs and outputs"),
 ("C18","863654f","setting a name with an index that does not exist was accepted"),
 ("C18","c4054c0","aiger writers wrote constants inverted"),
 ("C18","1eeebcb","aiger writers left out gates not reachable from the outputs"),
 ("C18","48de5cb","aiger binary writer produced negative deltas (wrong child order)"),
]
known=[]
exec(open("/verif/tools/known_more.py").read())
json.dump({"findings":known,"fixed":["fixed: property=%s %s %s"%f for f in fixed]},open("/verif/known_findings.json","w"),indent=1)
open("/verif/known_findings.json","a").write("\n")

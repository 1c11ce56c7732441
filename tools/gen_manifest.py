#!/usr/bin/env python3
# Writes /verif/MANIFEST.json and checks it against the schema.
import json
import jsonschema
EX="exhaustive bounded exploration of the real code (stateless model checking) in lock step with a reference model"
claimed={
 "C01":("model_checking",EX,"Every clause set/assumption set of the stated families, on the real solver, against truth tables. Nothing is said about formulas outside the families."),
 "C02":("model_checking",EX,"Every Add/Assume/Solve history up to the depth from each start formula, against truth tables."),
 "C03":("model_checking",EX,"Every failed-assumption answer in all histories up to the depth; cores are checked by truth table."),
 "C04":("model_checking",EX,"Every Assume/Test/Untest/Solve history up to the depth from each start formula."),
 "C05":("model_checking",EX,"Reason chains of all reported literals after every test history up to the depth."),
 "C06":("model_checking",EX,"Every legal activation history up to the depth, with recycling."),
 "C07":("model_checking",EX,"Every interleaving of operations on original and copy up to the depth; plus bit-identical continuation of a copy."),
 "C08":("model_checking",EX+", on a build with scaled maintenance intervals","Restart, clause deletion and compaction intervals are scaled down by an overlay on the current source so that small searches exercise them."),
 "C10":("fault_enumeration","every deadline position enumerated under a virtual clock on the real code","A timeout is made to strike at every check of the clock, up to a cap, before every continuation script."),
 "C13":("model_checking",EX,"All variables up to 2^20 and the top of the range; every history up to the depth is written, read back and compared by truth table."),
}
exec(open("/verif/tools/claimed_more.py").read())
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
checks=[]; na=[]
for p in props:
    i=p["id"]
    if i in claimed:
        lv,t,n=claimed[i]
        checks.append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":t,"level":lv,"level_note":n})
    else:
        na.append({"property":i,"reason":na_reason.get(i,"check not built yet")})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: instrumentation is applied to the current source by build overlays. Repairs of genuine defects are the fix: commits, listed in known_findings.json."}
sch=json.load(open("/root/.vp/MANIFEST.schema.json"))
jsonschema.validate(m,sch)
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1); open("/verif/MANIFEST.json","a").write("\n")
print(len(checks),"claimed",len(na),"not")

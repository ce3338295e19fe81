#!/usr/bin/env python3
# Generates /verif/MANIFEST.json. A property is claimed when its check exists in sim/props/src.
import json,os,re
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
lib=open(root+"/sim/props/src/lib.rs").read()
have=[m.upper() for m in re.findall(r"^mod (c\d\d);",lib,re.M)]
ids=[json.loads(l)["id"] for l in open(root+"/properties.jsonl")]
NOTE="Seeded search over whole simulated runs of the real code, judged online and over the recorded history against an independent executable reference; not exhaustive. Trusted: the reference model (self-checked against OpenSSL vectors where one exists), the simulator kit and the interposition layer."
NOTES={
"C07":"Seeded schedules at basic-block granularity over real threads in one process; interleavings are sampled, not enumerated. Oracle: the same call made alone in a fresh process. Data races on plain memory are only visible through results, not through weak-memory reordering.",
"C09":"Every entropy system call the process makes goes through the seam; the sampled plans cover interruption, short reads, missing call, missing device and hard errors.",
"C10":"Real files in a scratch directory, reads answered through the seam; torn and truncated contents at sampled offsets.",
"C11":"Writes to descriptors 1 and 2 go through the seam; the same operation is run under healthy and failing streams.",
}
NA={
"N01":"Pure functions of their operands: no schedule, time, I/O or second party for a simulator to control. Operators are exercised inside C06-C14, but deciding them for all operands is a job for proof or exhaustive checking, not for this technique.",
"N02":"A statement about which client programs compile; nothing executes, so there is nothing to simulate.",
"N03":"A statement about machine-level timing of single calls; the simulator replaces time and cannot observe it.",
"N04":"A statement about compile-time attribute macros; nothing executes, so there is nothing to simulate.",
}
m={"version":1,"setup_cmd":"sim/build.sh","checks":[],"not_applicable":[],
"notes":"check.sh rebuilds the simulator (sim/) against /repo's working tree and runs one property. No hooks in /repo: scheduling, entropy, files and streams are controlled from outside, by compiler-inserted basic-block callbacks and symbol interposition. Replay a violation with: sim/target/release/sim replay <file>."}
for i in ids:
    if i in have:
        m["checks"].append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"./check.sh "+i+" --tier thorough","technique":"deterministic simulation with fault injection (seeded search over schedules and faults)","level":"exploration","level_note":NOTES.get(i,NOTE)})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"The check is not built yet.")})
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1)
try:
    import jsonschema
    jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid",[c["property"] for c in m["checks"]])
except ImportError: pass

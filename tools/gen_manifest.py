#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when a check is added)."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
T="deterministic simulation with fault injection: "
NOTE="Seeded search, not a proof: holds on every simulated run listed in the evidence file. Trusts the simulator and the oracle in harness/src. "
claims={
"P01":("seeded thread scheduler over real threads, compared with each call alone",
  "Threads are interleaved at log lines, allocations and blocking operations rather than at each memory access; plain data races are left to safe Rust."),
"P02":("seeded histories of calls with unwinding injected at chosen steps, compared with each call alone in a new process",
  "Unwinding is injected at log lines."),
"P03":("simulated entropy and clock with faults, outputs of several environments compared",
  "Which orders hash maps take is sampled through their keys."),
}
import sys
sys.path.insert(0, os.path.join(root,'tools'))
try:
    from claims import MORE
    claims.update(MORE)
except ImportError:
    pass
na={
"N01":"preprocess is one pure function of one string: no threads, clock, I/O, randomness or other party whose behaviour could be simulated or made to fail.",
"N02":"tokenize is a pure function of one string, with nothing a scheduler or a fault could change.",
"N03":"The UTF-16 index map is a pure function of one string, with nothing a scheduler or a fault could change.",
"N04":"Agreement with Wikidot's dialect is a matter of what one input means; no schedule, fault or history enters, and the reference is not available offline.",
"N06":"Conditions are a pure function of the page information; no schedule, fault or history enters.",
"N07":"Layouts are a pure difference between two renderings of one tree; no schedule, fault or history enters.",
"N08":"Messages are looked up in a constant table of one language; a localisation service does not exist yet.",
"N09":"The bindings exist only on wasm32 with a JavaScript host; neither can be built or run here, and they are conversions without state.",
"N10":"Interwiki prefixes are a constant table; no schedule, fault or history enters.",
}
checks=[];nal=[]
for p in props:
    i=p['id']
    if i in claims:
        t,n=claims[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} --tier quick","thorough_cmd":f"bash check.sh {i} --tier thorough",
          "evidence_file":f"evidence/{i}.json","technique":T+t,"level":"exploration","level_note":NOTE+n})
    else:
        nal.append({"property":i,"reason":na.get(i,"Its check is not finished yet.")})
m={"version":1,"setup_cmd":"bash build.sh",
 "hooks":{"guard":"--cfg ftml_sim","enable":"RUSTFLAGS='--cfg ftml_sim' (set by build.sh)","source_commits":["8bb4937"]},
 "checks":checks,"not_applicable":nal,
 "notes":"Each check builds harness/ (which depends on /repo by path) into target/ and runs it. 'bash check.sh <id> --replay <file>' repeats a reported violation."}
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
open(os.path.join(root,'MANIFEST.json'),'a').write('\n')

#!/usr/bin/env python3
"""Writes MANIFEST.json. The checks which exist are those with a file harness/checks/cNN.go."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif: "], capture_output=True, text=True).stdout.split()
T_DIRECT = "explicit-state model checking of the real code: exhaustive enumeration of bounded choice sequences, every step compared with a reference model"
T_FAULT = "exhaustive fault/deviation enumeration on the real code within a deviation bound, accept/reject verdicts predicted by a reference model"
T_EXPL = "exhaustive enumeration of a bounded input space on the real code against an independent reference"
T_SCHED = "exhaustive schedule enumeration (preemption-bounded) of the instrumented implementation under a controlled scheduler, plus a race-detector pass"
LEVEL = {}
for p in "C01 C02 C03 C07 C13 C14 C15 C18 C19 C21 C22".split(): LEVEL[p] = ("model_checking", T_DIRECT)
for p in "C04 C05 C06 C08 C09 C10 C11".split(): LEVEL[p] = ("fault_enumeration", T_FAULT)
for p in "C12 C16 C17 C20 C23 C24".split(): LEVEL[p] = ("exploration", T_EXPL)
LEVEL["C22"] = ("model_checking", T_SCHED)
NOTE = json.load(open(root + "/tools/notes.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(f"{root}/harness/checks/{i.lower()}.go"):
        checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": LEVEL[i][1], "level": LEVEL[i][0], "level_note": NOTE.get(i, "") or
                       "Exhaustive within the bounds listed in the evidence file; inputs outside the enumerated alphabets are assumed to behave like those inside; trusts the reference model and math/big."})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif", "source_commits": HOOK},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. ./run.sh replay FILE runs a reported execution again."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")

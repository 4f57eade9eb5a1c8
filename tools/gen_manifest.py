#!/usr/bin/env python3
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = {os.path.basename(f).split("_")[0].upper() for f in glob.glob(H + "/h/c*.cpp")}
if have:
    have |= {"C22", "C23"}
checks, na = [], []
for line in open(H + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in have:
        what = {"C22": "memory, leak, lifetime and assertion monitors", "C23": "happens-before race detector"}.get(p, "property monitors plus race, memory, leak and deadlock oracles")
        checks.append({
            "property": p,
            "quick_cmd": "python3 check.py %s" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p,
            "technique": "runtime monitoring of controlled executions of the real code (TSan-instrumented build on our own scheduling, weak-memory and allocation-tracking runtime): " + what,
            "level": "exploration",
            "level_note": "Every oracle observed a fixed number of seeded executions of generated client programs under explored schedules and memory-model choices; sampled, not exhaustive. Trusts rt/schedrt.cpp's model of C++ atomics, mutexes, condition variables and time, and g++'s TSan instrumentation.",
        })
    else:
        na.append({"property": p, "reason": "harness not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: instrumentation comes from the compiler (-fsanitize=thread linked against rt/schedrt.cpp)."},
          open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")

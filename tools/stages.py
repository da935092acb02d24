#!/usr/bin/env python3
"""Adds what the sanitizer stages observed to the evidence of the main run."""
import json, os, sys
path, d, stages = sys.argv[1], sys.argv[2], sys.argv[3:]
e = json.load(open(path))
for st in stages:
    p = os.path.join(d, "stage." + st)
    if not os.path.exists(p):
        continue
    for line in open(p):
        if line.startswith("P23:"):
            n = int(line.split("evaluations=")[1].split()[0])
            e["coverage"]["observed"][st + ": evaluations"] = n
            e["coverage"]["evaluations"] += n
        elif line.startswith("  ") and " = " in line:
            k, v = line.strip().rsplit(" = ", 1)
            e["coverage"]["observed"][st + ": " + k] = int(v)
json.dump(e, open(path, "w"), indent=1)

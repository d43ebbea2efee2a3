#!/usr/bin/env python3
"""replay.py <file>: re-executes a recorded violation against /repo's tree."""
import json, sys

import simbuild
from check import evaluate, real
from dst import *

j = json.load(open(sys.argv[1]))
exe = simbuild.build(print)
ctx = Ctx(exe)
f, res = evaluate(j["property"], Plan.from_json(j["plan"]), ctx)
print(Plan.from_json(j["plan"]).text().strip())
for o in res["ops"]:
    print("  op %d %s -> %s" % (o["i"], o["k"], o["b"]))
for v in res["viol"]:
    print("  %s: %s" % (VK[v["kind"]], v["text"]))
hit = [x for x in real(f) if x[0] == j["class"]]
print("log hash %s (recorded %s)" % (loghash(res), j["hash"]))
if hit:
    print("%s: %s" % hit[0])
    print("VIOLATION property=%s replay=%s" % (j["property"], sys.argv[1]))
    sys.exit(1)
print("does not reproduce on this tree")

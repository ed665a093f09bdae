#!/usr/bin/env python3
"""contracts/shape.json: the loops and closures of each function the contracts were written for;
contracts/calls.json: the operators each of them uses that the solver has no theory of by default, and the names they call;
contracts/literals.json: the numbers its source mentions.
usage: gen_shape.py report.json"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
json.dump({f["fn"]: r["loops"].get(f["fn"], "") for f in r["fns"]}, open(f"{H}/contracts/shape.json", "w"), indent=0, sort_keys=True)
word = lambda x: x[0].isalpha() or x[0] == "_"
json.dump({"operators": {f: [x for x in c if not word(x)] for f, c in r["calls"].items() if not all(map(word, c))},
           "names": sorted({x for c in r["calls"].values() for x in c if word(x)})}, open(f"{H}/contracts/calls.json", "w"), indent=0, sort_keys=True)
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import check
json.dump({str(k): n for k, n in sorted(check.literals().items())}, open(f"{H}/contracts/literals.json", "w"), indent=0)
print(len(r["under_contract"]), len(r["uncontracted"]))

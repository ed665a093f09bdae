#!/usr/bin/env python3
"""verify_seeds.py VX_BINARY [seeded/x ...] -- the verifier alone on each planted bug, in a scratch copy of /repo"""
import glob, json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import check
vx = sys.argv[1]
for d in sys.argv[2:] or sorted(glob.glob(f"{H}/seeded/*")):
    tmp = tempfile.mkdtemp(prefix="cbvs-")
    try:
        shutil.copytree("/repo/src", f"{tmp}/repo/src")
        p = open(f"{d}/patch.diff").read()
        if "cbored-derive/" in p:
            shutil.copytree("/repo/cbored-derive", f"{tmp}/repo/cbored-derive", ignore=shutil.ignore_patterns("target"))
        subprocess.run(["git", "apply", os.path.abspath(f"{d}/patch.diff")], cwd=f"{tmp}/repo", check=True)
        check.REPO = f"{tmp}/repo"
        prop = json.load(open(f"{d}/meta.json"))["property"]
        v = check.Verifier(prop, tmp, vx)
        v.run()
        hit = [x for x in v.failed if prop in x["tags"] and x["fn"] not in v.drift]
        print(os.path.basename(d), prop, "CAUGHT" if hit else "missed", v.error or "", list(v.drift.values())[:3])
        for x in v.failed:
            print("     ", ",".join(x["tags"]), x["fn"], "|", x["what"][:110].replace("\n", " "), "|", x["message"])
        sys.stdout.flush()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

#!/usr/bin/env python3
"""vacuity.py VX_BINARY [EXPANDED] -- is the end of every verified function reachable under its contract, the
contracts of what it calls, the invariants and the axioms?  assert(false) goes where each function returns; Verus must
refuse every one of them.  Prints those it accepts."""
import json, os, re, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.environ.get("OUT") or tempfile.mkdtemp(prefix="cbvv-")
extra = ["--extra", sys.argv[2]] if len(sys.argv) > 2 else []
subprocess.run([sys.argv[1], "--root", "/repo/src/lib.rs", "--contracts", f"{H}/contracts", "--out", out, "--probe"] + extra, check=True)
t = open(f"{out}/gen.rs").read()
rep = json.load(open(f"{out}/report.json"))


def close(i):
    """end of the block that opens at i"""
    d = 0
    while True:
        c = t[i]
        if t.startswith("//", i):
            i = t.index("\n", i)
        elif c in "({[":
            d += 1
        elif c in ")}]":
            d -= 1
            if d == 0:
                return i
        i += 1


# the lemmas and theorems: the body is the first block at depth 0 that starts a line or follows ") " on one line
edits = []
for m in re.finditer(r"^  (?:pub )?(?:broadcast )?(proof )?fn (\w+)", t, re.M):
    if not m.group(1) and not re.match(r"(c\d\d_|q\d\d_)", m.group(2)):
        continue
    nxt = re.compile(r"^  (?:pub |proof |fn |open |uninterp |#\[|///)", re.M).search(t, m.end())
    head = t[m.start():nxt.start() if nxt else len(t)]
    if "external_body" in t[m.start() - 60:m.start()] or "axiom" in m.group(0):
        continue
    b = re.search(r"^  \{", head, re.M)
    if not b:
        print("no body found:", m.group(2))
        continue
    i = m.start() + b.end() - 1
    j = close(i)
    lab = f"/*probe {m.group(2)}*/"
    if m.group(1):
        edits.append((j, f" {lab} assert(false); "))
for p, x in sorted(edits, reverse=True):
    t = t[:p] + x + t[p:]
open(f"{out}/gen.rs", "w").write(t)
r = subprocess.run(["verus", "gen.rs", "--num-threads", "8", "-V", "spinoff-all", "--error-format=json", "--multiple-errors", "3"], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
hit, other = set(), []
for l in r.stderr.splitlines():
    try:
        e = json.loads(l)
    except ValueError:
        continue
    if e.get("level") == "error" and e.get("spans"):
        s = e["spans"][0]
        src = t.splitlines()[s["line_start"] - 1]
        if "assertion failed" in e["message"] and t.encode()[s["byte_start"]:s["byte_end"]].decode() in ("assert(false)", "false"):
            hit.add(s["byte_start"])
        else:
            other.append((e["message"][:150], s["line_start"]))
print(r.stdout.strip().splitlines()[-1:], "reached:", len(hit))
bt = t.encode()
for m in re.finditer(rb"assert\(false\)", bt):
    if not any(m.start() <= h <= m.end() for h in hit):
        ln = bt[:m.start()].count(b"\n") + 1
        lines = t.splitlines()
        fn = next((x for x in (re.search(r"@F:(.*?)@\*/", lines[k]) for k in range(ln - 1, 0, -1)) if x), None)
        lab = re.search(r"/\*probe (\w+)\*/", lines[ln - 1])
        print("NOT REACHED", ln, lab.group(1) if lab else fn and fn.group(1), "|", lines[ln - 1].strip()[-100:])
for o in other[:20]:
    print("other", o)

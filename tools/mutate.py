#!/usr/bin/env python3
"""mutate.py VX_BINARY OUT.jsonl [--part K/N] [--max M] [--files regex] -- how much the contracts decide: small changes of
/repo's code, in a scratch copy, that compile and pass its tests; does the verifier, alone, report them?"""
import argparse, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
import check
ap = argparse.ArgumentParser()
ap.add_argument("vx"); ap.add_argument("out"); ap.add_argument("--part", default="0/1"); ap.add_argument("--max", type=int, default=10**9)
ap.add_argument("--files", default="."); ap.add_argument("--skip", default="", help="results of earlier runs, comma separated"); ap.add_argument("--seed", type=int, default=1)
A = ap.parse_args()


def blank(t):
    """the text with comments, strings and test modules blanked"""
    o = list(t)
    def wipe(a, b):
        for k in range(a, b):
            if o[k] != "\n":
                o[k] = " "
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', t, re.S):
        wipe(m.start(), m.end())
    b = "".join(o)
    for m in re.finditer(r"#\[cfg\(test\)\]\s*mod \w+ \{", b):
        d, k = 1, m.end()
        while d:
            d += {"{": 1, "}": -1}.get(b[k], 0)
            k += 1
        wipe(m.start(), k)
    b = "".join(o)
    for m in re.finditer(r"impl[^{]*(?:fmt::Display|std::error::Error|fmt::Debug)[^{]*\{", b):
        d, k = 1, m.end()
        while d:
            d += {"{": 1, "}": -1}.get(b[k], 0)
            k += 1
        wipe(m.start(), k)
    b = "".join(o)
    for m in re.finditer(r"#!?\[[^\]]*\]|^\s*(?:pub )?use [^;]*;", b, re.M):
        wipe(m.start(), m.end())
    return "".join(o)


SWAP = [("Positive", "Negative"), ("U8", "U16"), ("U16", "U32"), ("U32", "U64"), ("Imm", "U8"), ("I1", "I2"), ("I2", "I4"), ("I4", "I8"), ("Bytes", "Text"), ("Array", "Map"),
        ("True", "False"), ("Null", "Undefined"), ("true", "false"), ("Indefinite", "Definite"), ("FP16", "FP32"), ("FP32", "FP64"), ("is_some", "is_none"), ("is_ok", "is_err"), ("start", "end"),
        ("u8", "u16"), ("u16", "u32"), ("u32", "u64"), ("key", "value"), ("read", "advance"), ("expected", "got"), ("len", "capacity"), ("push", "insert"), ("first", "last")]


def mutants(path):
    t = open(path).read()
    b = blank(t)
    out = []
    def add(a, e, r, k):
        out.append((a, e, r, k))
    for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?=\b|u8|u16|u32|u64|usize)", b):
        s = m.group(1)
        v = int(s.replace("_", ""), 0)
        add(m.start(1), m.end(1), str(v + 1), "literal+1")
        if v > 0:
            add(m.start(1), m.end(1), str(v - 1), "literal-1")
    for m in re.finditer(r"(<=|>=|==|!=|&&|\|\||<<|>>|\.\.=|\.\.|(?<=\s)[<>](?=\s)|(?<=\s)[-+*&|](?=\s)|\+=|-=)", b):
        for r in {"<=": ["<", "=="], ">=": [">"], "==": ["!=", "<="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "<<": [">>"], ">>": ["<<"], "..=": [".."], "..": [], "<": ["<=", ">"], ">": [">=", "<"],
                  "+": ["-"], "-": ["+"], "*": ["+"], "&": ["|"], "|": ["&"], "+=": ["-="], "-=": ["+="]}[m.group(1)]:
            add(m.start(1), m.end(1), r, "operator")
    for x, y in SWAP:
        for u, w in ((x, y), (y, x)):
            for m in re.finditer(r"\b%s\b" % u, b):
                add(m.start(), m.end(), w, "swap")
    for m in re.finditer(r"^[ \t]+[a-z_][\w.]*(?:::\w+)*(?:\([^;{}]*\)|[^;{}=]* [-+]?= [^;{}]*)\??;[ \t]*$", b, re.M):
        if not re.match(r"\s*(let|return|use|break|continue)\b", m.group(0)):
            add(m.start(), m.end(), "", "drop statement")
    for m in re.finditer(r"\bif (?!let )([^{};]*?) \{", b):
        add(m.start(1), m.end(1), f"!({t[m.start(1):m.end(1)]})", "negate")
        add(m.start(1), m.end(1), "false", "never")
    for m in re.finditer(r"^([ \t]+)([^\n=]*?) => ([^\n{}]*?),$", b, re.M):
        add(m.start(), m.end(), "", "drop arm")
    for m in re.finditer(r"\bSome\((\w+)\)", b):
        add(m.start(), m.end(), "None", "none")
    return t, out


def sh(c, cwd, timeout=300, env=None):
    try:
        if "cargo" in c[0] and "test" in c or "falsify" in c[0]:  # a mutant may ask for all there is
            c = ["prlimit", "--as=6000000000", "--"] + c
        return subprocess.run(c, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(c, 99, "", "timeout")


files = sorted(f for f in glob.glob("/repo/src/**/*.rs", recursive=True) + glob.glob("/repo/cbored-derive/src/*.rs") if re.search(A.files, f))
todo, texts = [], {}
for f in files:
    t, ms = mutants(f)
    texts[f] = t
    todo += [(f, m) for m in ms]
random.Random(A.seed).shuffle(todo)
k, n = map(int, A.part.split("/"))
done = set()
for x in filter(None, A.skip.split(",")):
    for l in open(x):
        d = json.loads(l)
        if d["result"] in ("does not compile", "killed by the tests", "caught"):
            done.add((d["file"], d["line"], d["was"], d["now"], d["kind"]))
todo = [(f, m) for f, m in todo[k::n] if not done or (f[len("/repo"):], texts[f][:m[0]].count("\n") + 1, texts[f][m[0]:m[1]].strip()[:100], m[2].strip()[:100], m[3]) not in done][:A.max]
print(len(todo), "mutants"); sys.stdout.flush()
W = tempfile.mkdtemp(prefix="cbvm-")
R = f"{W}/repo"
sh(["cp", "-a", "/repo", R], "/")
shutil.copytree(f"{H}/falsify", f"{W}/falsify", ignore=shutil.ignore_patterns("target"))
env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{R}/target", RUSTFLAGS="-Awarnings")
count = {}
for f, (a, e, r, kind) in todo:
    p = R + f[len("/repo"):]
    t = texts[f]
    open(p, "w").write(t[:a] + r + t[e:])
    line = t[:a].count("\n") + 1
    rec = {"file": f[len("/repo/"):], "line": line, "kind": kind, "was": t[a:e].strip()[:100], "now": r.strip()[:100], "text": t.splitlines()[line - 1].strip()[:150]}
    try:
        c = sh(["cargo", "build", "--offline", "-q"], R, env=env)
        if c.returncode:
            rec["result"] = "does not compile"
            continue
        ok = True
        for q in (".", "cbored-derive", "cbored-examples"):
            c = sh(["cargo", "test", "--offline", "-q"] + ([] if q == "." else ["--manifest-path", f"{q}/Cargo.toml"]), R, timeout=90, env=env)
            if c.returncode:
                ok = False
                break
        if not ok:
            rec["result"] = "killed by the tests"
            continue
        check.REPO = R
        vt = f"{W}/v"
        shutil.rmtree(vt, ignore_errors=True)
        os.makedirs(vt)
        v = check.Verifier("C01", vt, A.vx)
        derive = "cbored-derive" in f
        if derive:
            path, err = check.expand(vt, env)
            if path is None:
                rec["result"] = "caught"
                rec["why"] = ["a definition is refused"]
                continue
            v = check.Verifier("C18", vt, A.vx, path)
        else:
            mod = f[len("/repo/src/"):-3].replace("/", "::")
            mod = mod[:-5] if mod.endswith("::mod") else mod
            v.only = None if mod == "lib" else mod
        v.run()
        hard = [x for x in v.failed if x["fn"] not in v.drift]
        rec["result"] = "caught" if hard else "undecided" if v.failed or v.drift or v.error or v.stubbed else "SURVIVES"
        rec["tags"] = sorted({y for x in hard for y in x["tags"]})
        if rec["result"] != "caught":
            # the whole check, by the falsifier
            c = sh(["sed", "-i", f's|path = "/repo"|path = "{R}"|', f"{W}/falsify/Cargo.toml"], R)
            c = sh(["cargo", "build", "--offline", "--locked", "-q", "--manifest-path", f"{W}/falsify/Cargo.toml", "--target-dir", f"{W}/ft"], R, env=env)
            rec["falsifier"] = []
            if c.returncode:
                rec["falsifier"] = ["does not build: " + c.stderr[-300:]]
            for p_ in [f"C{x:02}" for x in range(1, 24)] if not c.returncode else []:
                c = sh([f"{W}/ft/debug/falsify", p_, "--seed", "1", "--ms", "3000", "--tier", "quick", "--out", f"{W}/case"], R, timeout=120)
                if c.returncode:
                    rec["falsifier"].append(f"{p_}:{c.returncode}")
                    break
        rec["why"] = [x["fn"] + ": " + x["what"][:80] for x in (hard or v.failed)][:4] + list(v.drift.values())[:2] + ([v.error[:200]] if v.error else [])
    finally:
        open(p, "w").write(t)
        count[rec["result"]] = count.get(rec["result"], 0) + 1
        with open(A.out, "a") as o:
            o.write(json.dumps(rec) + "\n")
print(count)
shutil.rmtree(W)

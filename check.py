#!/usr/bin/env python3
"""check.py <PROPERTY> [quick|thorough] -- decide one property of /repo's current tree.

1. vx (built from /verif/vx) extracts /repo/src and splices the contracts of /verif/contracts into it.
2. Verus discharges every obligation of the result; an obligation that fails is mapped back to the
   contract clause it belongs to, and through the clause's tags to properties.
3. falsify (built from /verif/falsify against /repo) searches for a failing input with the real code:
   it replays a failed obligation, and stands in, bounded, for what is not under contract.
"""
import collections, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CBV_REPO", "/repo")
T0 = time.time()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build(name, target, env):
    t = time.time()
    src = f"{HERE}/{name}"
    if REPO != "/repo" and name == "falsify":  # development only: another tree
        src = f"{target}-src"
        shutil.copytree(f"{HERE}/{name}", src, ignore=shutil.ignore_patterns("target"), dirs_exist_ok=True)
        toml = open(f"{src}/Cargo.toml").read().replace('"/repo"', f'"{REPO}"')
        open(f"{src}/Cargo.toml", "w").write(toml)
    args = ["cargo", "build", "--offline", "--locked", "--manifest-path", f"{src}/Cargo.toml", "--target-dir", target]
    r = sh(args, env=env)
    return r.returncode == 0, r.stderr[-4000:], time.time() - t


def outermost(span):
    """the place in the extracted crate that a span inside a macro's expansion comes from"""
    s = span
    while not s["file_name"].endswith("gen.rs") and (s.get("expansion") or {}).get("span"):
        s = s["expansion"]["span"]
    return dict(s, is_primary=span.get("is_primary"), label=span.get("label")) if s["file_name"].endswith("gen.rs") else span


# functions of std whose specification in vstd says all there is to say
SPECIFIED = {"len", "is_empty", "push", "pop", "clone", "unwrap", "expect", "is_some", "is_none", "is_ok", "is_err", "into", "from", "new"}


class Verifier:
    """extraction and Verus, on the whole crate"""

    def __init__(self, prop, tmp, vx_bin, derived=None, stubbed=()):
        self.prop, self.tmp, self.vx, self.derived = prop, tmp, vx_bin, derived
        self.error = None  # no verdict from the verifier, and why
        self.failed = []  # (tags, function, description)
        self.report = None
        self.drift = {}  # function -> how it differs from the text the contracts were written for
        self.stubbed = list(stubbed)
        self.refused = []
        self.gen = ""
        self.units = {}
        self.cmd = ""
        self.smt_ms = 0
        self.raw = ""
        self.verified = 0
        self.all_failed = []
        self.trust_held = []  # specifications of std that Kani has checked
        self.trust_broken = None
        self.only = None  # verify this module alone (tools/mutate.py)

    def verus(self, out, extra=(), timeout=600):
        """one run of Verus on the extracted crate: (result, diagnostics) or None"""
        try:
            r = sh(self.cmd.split() + list(extra), cwd=out, timeout=timeout)
        except subprocess.TimeoutExpired:
            self.error = f"verus did not finish in {timeout} s"
            return None
        self.raw = r.stderr
        diags = []
        for l in r.stderr.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("level") == "error" and e.get("spans"):
                e["spans"] = [outermost(s) for s in e["spans"]]
                diags.append(e)
        try:
            j = json.loads(r.stdout)
        except ValueError:
            j = {}
        return j, diags

    def run(self):
        out = f"{self.tmp}/gen" + ("-derived" if self.derived else "")
        self.cmd = "verus gen.rs --num-threads 8 -V spinoff-all --output-json --time-expanded --error-format=json"
        if self.derived:
            self.cmd += " --verify-only-module derived --verify-only-module derthm_"
        elif self.only:
            self.cmd += f" --verify-only-module {self.only}"
        while True:
            extra = ["--stub", "|".join(self.stubbed)] if self.stubbed else []
            if self.derived:
                extra += ["--extra", self.derived]
            r = sh([self.vx, "--root", f"{REPO}/src/lib.rs", "--contracts", f"{HERE}/contracts", "--out", out] + extra)
            if r.returncode != 0:
                self.error = "extraction: " + r.stderr.strip()[-500:]
                return
            self.report = json.load(open(f"{out}/report.json"))
            self.gen = open(f"{out}/gen.rs").read()
            got = self.verus(out, ["--rlimit", "60"] if self.derived else [])  # long concatenations of many fields
            if got is None:
                return
            j, diags = got
            res = j.get("verification-results", {})
            if res and not res.get("encountered-vir-error") and (res.get("verified") or not diags):
                break
            # the front end refuses some function: assume its contract on this tree, decide the rest
            under = self.under()
            bad = sorted({f for f in (self.fn_at(s["line_start"]) for e in diags for s in e["spans"]
                                      if s["file_name"].endswith("gen.rs")) if f in under})
            self.refused += ["%s (%s)" % (e["message"][:200], self.where(e)) for e in diags[:4]]
            if not bad and "@theorems" not in self.stubbed and any(self.in_theorems(s) for e in diags for s in e["spans"]):
                bad = ["@theorems"]
            if not bad or len(self.stubbed) > 12:
                self.error = "the verifier does not take the code: " + "; ".join(self.refused)[:1500]
                return
            self.stubbed += bad
        self.compare_shape()
        self.verified = res.get("verified", 0)
        smt = j.get("times-ms", {}).get("smt", {})
        self.smt_ms = smt.get("smt-run", 0)
        for m in smt.get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.units[f.get("function")] = (f.get("success"), f.get("time-micros", 0))
        for e in diags:
            self.classify(e)
        if self.failed:
            # a limit of the solver is no verdict: once more with more resources and another seed
            raw, first = self.raw, {(d["fn"], d["what"]) for d in self.failed}
            got = self.verus(out, ["--rlimit", "150" if self.derived else "40", "--smt-option", "smt.random_seed=7"], 240)
            if got and got[0].get("verification-results", {}).get("verified"):
                self.failed, self.all_failed = [], []
                for e in got[1]:
                    self.classify(e)
                both = {(d["fn"], d["what"]) for d in self.failed}
                if not both:
                    self.verified = got[0]["verification-results"]["verified"]
                self.failed = [d for d in self.failed if (d["fn"], d["what"]) in first or d["fn"] in {f for f, _ in first}]
            else:
                self.error = None
                self.raw = raw
        if not res.get("success") and not self.failed and not self.all_failed and not diags and not self.error:
            self.error = "verus failed without a message"
        under = self.under(not self.derived)
        if self.error is None and not self.only and self.verified + len(self.all_failed) < len(under):
            self.error = f"only {self.verified} units verified, {len(under)} functions under contract"

    def under(self, all_=True):
        """the functions this run verifies"""
        return {f for f in self.report["under_contract"] if all_ or f.startswith("derived.rs::")}

    def add(self, d):
        """one verdict from this run, on the crate, and another, on code derived from it"""
        self.error = self.error or d.error
        for a in ("failed", "all_failed", "stubbed", "refused"):
            setattr(self, a, getattr(self, a) + [x for x in getattr(d, a) if x not in getattr(self, a)])
        self.drift.update(d.drift)
        self.units.update({u: x for u, x in d.units.items() if u not in self.units or re.search("::(derived|derthm_)::", str(u))})
        self.smt_ms += d.smt_ms
        self.verified += d.verified
        self.raw = self.raw + "\n" + d.raw if self.failed else d.raw
        if d.report:
            self.report, self.gen, self.derived = d.report, d.gen, d.derived
        self.cmd += " ; " + d.cmd

    def compare_shape(self):
        """functions whose text is no longer what the contracts were written for: a proof that fails there is undecided"""
        base = json.load(open(f"{HERE}/contracts/shape.json"))
        if not self.derived:
            base = {f: x for f, x in base.items() if not f.startswith("derived.rs::")}
        rep = self.report
        now = {f["fn"]: rep["loops"].get(f["fn"], "") for f in rep["fns"]}
        new = sorted(set(now) - set(base))
        for f in new:
            self.drift[f] = f"new function {f}"
        for f in sorted(set(base) - set(now)):
            self.drift[f] = f"no function {f}"
        for f in now:
            if f in base and now[f] != base[f]:
                self.drift[f] = f"{f}: {now[f]} instead of {base[f]}"
        for l in rep["lost"]:
            f = re.match(r"(.*?): (?:loop|fold|closure|arm|anchor|AFTER|no local)", l)
            self.drift[f.group(1) if f else l] = "lost anchor: " + l
        for f in self.stubbed:
            self.drift[f] = f"refused by the verifier: {f}" if f != "@theorems" else "the theorems over the contracts do not fit the code"
        names = {re.split(r"::|/", f)[-1]: f for f in new}
        own = {re.split(r"::|/", f)[-1] for f in now}
        known = json.load(open(f"{HERE}/contracts/calls.json"))
        for f, calls in rep["calls"].items():
            for c in calls:
                if f in self.drift:
                    break
                if c in names:
                    self.drift[f] = f"{f} calls {names[c]}, which has no contract"
                elif not (c[0].isalpha() or c[0] == "_"):
                    if f in base and c not in known["operators"].get(f, []):
                        self.drift[f] = f"{f} uses {c}, for which its proof has no lemmas"
                elif f in base and c not in known["names"] and c not in SPECIFIED and c not in own and not c[0].isupper():
                    self.drift[f] = f"{f} calls {c}, of which no proof speaks yet"

    def in_theorems(self, span):
        return span["file_name"].endswith("gen.rs") and span["line_start"] > self.gen[:self.gen.index("// ---- theorems over")].count("\n")

    def theorems(self, prop):
        """names of the theorems of a property that the text holds"""
        return re.findall(r"fn (%s_\w+)" % prop.lower(), self.gen[self.gen.index("// ---- theorems over"):]) if self.gen else []

    def where(self, e):
        for s in e["spans"]:
            if s["file_name"].endswith("gen.rs"):
                f = self.fn_at(s["line_start"])
                if f:
                    return f
        return "?"

    def fn_at(self, line):
        best = None
        for f in self.report["fn_ranges"]:
            if f["start"] <= line <= f["end"] and (best is None or f["start"] >= best["start"]):
                best = f
        return best and best["fn"]

    def fn_tags(self, fn):
        for f in self.report["fns"]:
            if f["fn"] == fn:
                return list(f["tags"])
        return []

    def classify(self, e):
        msg = e["message"]
        gen = [s for s in e["spans"] if s["file_name"].endswith("gen.rs")]
        fn, clause = None, None
        for s in gen:
            fn = fn or self.fn_at(s["line_start"])
        if "postcondition" in msg or "invariant" in msg:
            for s in gen:
                lab = s.get("label") or ""
                if "postcondition" in lab or "invariant" in lab or "failed" in lab or s.get("is_primary"):
                    for c in self.report["clauses"]:
                        if c["start"] <= s["line_start"] <= c["end"] and c["kind"] != "requires":
                            clause = c
        prim = [s for s in gen if s.get("is_primary")] or gen
        if clause is None and prim:
            fn = self.fn_at(prim[0]["line_start"]) or fn
        if clause is not None:
            tags = list(clause["tags"]) or self.fn_tags(clause["fn"])
            if tags in (["C23"], ["C24"]):
                pass  # what an error says is no other property's matter
            elif "invariant" in clause["kind"]:
                tags = sorted(set(tags) | set(self.fn_tags(clause["fn"])))
            fn = fn or clause["fn"]
            if "ensures" in clause["kind"] and fn != clause["fn"] and tags not in (["C23"], ["C24"]):
                # a trait method's clause fails in an implementation
                tags = sorted(set(tags) | set(self.fn_tags(fn)))
            what = f"{clause['kind']} of {clause['fn']}: {clause['text']}"
        else:
            tags = self.fn_tags(fn) if fn else []
            if re.search(r"overflow|underflow|precondition|bounds|unreach|assertion|termination|decreases", msg):
                tags = sorted(set(tags) | {"C04"}) if fn else tags
            what = msg
        if (fn or "").startswith("derived.rs::"):
            # of a derived codec, what its errors say is C25
            errs = clause is not None and list(clause["tags"]) in (["C23"], ["C24"])
            tags = ["C25"] if errs else [t for t in tags if t != "C25"]
        line = prim[0]["line_start"] if prim else 0
        src = ""
        if prim and prim[0].get("text"):
            src = prim[0]["text"][0]["text"].strip()
        lim = "rlimit" in msg or "resource limit" in msg.lower()
        d = {"tags": tags, "fn": fn or "specification", "what": what, "message": msg, "gen_line": line, "source": src, "limit": lim}
        self.all_failed.append(d)
        if fn is None:
            # a lemma of the specification does not depend on the code under test
            if self.drift and any(self.in_theorems(s) for s in gen):
                self.drift["@theorems"] = "a theorem over the contracts does not go through: " + src
            elif not self.error:
                self.error = f"specification: {msg} at gen.rs:{line} {src}"
            return
        self.failed.append(d)


def literals():
    """the numbers the source mentions, and how often"""
    n = collections.Counter()
    for d in ("src", "cbored-derive/src"):
        for root, _, files in os.walk(f"{REPO}/{d}"):
            for x in files:
                if not x.endswith(".rs"):
                    continue
                t = re.sub(r"//[^\n]*", "", open(f"{root}/{x}", errors="replace").read())
                t = re.sub(r"(?:u|i|f)(?:8|16|32|64|128|size)\b", "", t)
                for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:\s*<<\s*([0-9]+))?", t):
                    try:
                        v = int(m.group(1).replace("_", "").lstrip("0") or "0", 10) if m.group(1).replace("_", "").isdigit() else int(m.group(1).replace("_", ""), 0)
                    except ValueError:
                        continue
                    for y in {v, v << min(int(m.group(2)), 64) if m.group(2) else v}:
                        if y < 1 << 64:
                            n[y] += 1
    return n


def new_literals():
    """the numbers this tree mentions more often than the one the contracts were written for"""
    try:
        base = json.load(open(f"{HERE}/contracts/literals.json"))
        return sorted(v for v, n in literals().items() if v > 2 and n > base.get(str(v), 0))[:200]
    except (OSError, ValueError):
        return []


class Falsifier:
    def __init__(self, prop, tmp, bin_):
        self.prop, self.tmp, self.bin = prop, tmp, bin_
        self.dict = new_literals()
        self.evals = 0
        self.distinct = 0
        self.suites = ""
        self.samples = []
        self.found = None  # path of the failing case
        self.why = ""
        self.error = None
        self.wall = 0
        self.budget = []

    def run(self, seed, ms, tier):
        if self.found or self.error:
            return
        t = time.time()
        out = f"{self.tmp}/case-{seed}-{ms}.txt"
        cmd = [self.bin, self.prop, "--seed", str(seed), "--ms", str(ms), "--tier", tier, "--out", out]
        if self.dict:
            cmd += ["--dict", ",".join(map(str, self.dict))]
        self.budget.append(f"seed {seed}, {ms} ms per property")
        try:
            r = sh(cmd, timeout=ms / 1000 * 3 + 180)
            rc, so = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, so = -1, ""
        if rc == 1 and os.path.exists(out):
            self.found = out
            self.why = re.search(r"^why: (.*)$", open(out).read(), re.M).group(1)
        elif rc == 0:
            m = re.search(r"evaluations=(\d+) distinct_nontrivial=(\d+) suites=(\S*)", so)
            self.evals += int(m.group(1))
            self.distinct = max(self.distinct, int(m.group(2)))
            self.suites = m.group(3)
            self.samples = (self.samples + re.findall(r"^SAMPLE (.*)$", so, re.M))[:16]
        elif rc == 2:
            self.error = "falsifier: " + so[-300:]
        else:
            # the process died: once more, keeping the case on disk
            tr = f"{self.tmp}/trace-{seed}-{ms}.txt"
            try:
                r = sh(cmd + ["--trace", tr], timeout=ms / 1000 * 20 + 240)
                rc2 = r.returncode
            except subprocess.TimeoutExpired:
                rc2 = None
            if rc2 == 1 and os.path.exists(out):
                self.found, self.why = out, "found on the second run"
            elif rc2 not in (0, 2, None) and os.path.exists(tr):
                self.found, self.why = tr, f"the process dies ({rc2}) on this case"
            else:
                self.error = f"falsifier died ({rc}), not reproduced ({rc2})"
        self.wall += time.time() - t

    def deep(self, seed, ms, tier, n=6):
        """the search again, longer and from several seeds at once"""
        fs = [Falsifier(self.prop, self.tmp, self.bin) for _ in range(n)]
        ts = [threading.Thread(target=f.run, args=(seed + k, ms, tier)) for k, f in enumerate(fs)]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
        for f in fs:
            self.found, self.why = (self.found, self.why) if self.found else (f.found, f.why)
            self.evals += f.evals
            self.distinct = max(self.distinct, f.distinct)
            self.budget += f.budget
            self.wall = max(self.wall, f.wall)


LAYOUTS = ("C18", "C19", "C20")
DERIVE = LAYOUTS + ("C25",)
SAMPLE_CARGO = """[package]
name = "samples"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
cbored = { path = "%s" }
[profile.dev]
debug = 0
"""


def samples_crate(tmp):
    d = f"{tmp}/samples"
    os.makedirs(f"{d}/src", exist_ok=True)
    open(f"{d}/Cargo.toml", "w").write(SAMPLE_CARGO % REPO)
    shutil.copy(f"{HERE}/derived/samples.rs", f"{d}/src/lib.rs")
    shutil.copy(f"{HERE}/derived/samples.lock", f"{d}/Cargo.lock")
    return d


def expand(tmp, env):
    """the code the macros of the current tree generate for the sample definitions"""
    d = samples_crate(tmp)
    r = sh(["cargo", "rustc", "--offline", "--target-dir", f"{d}/target", "--", "-Zunpretty=expanded"], cwd=d, env=dict(env, RUSTC_BOOTSTRAP="1"))
    if r.returncode != 0:
        return None, r.stderr[-1500:]
    os.makedirs(f"{tmp}/expanded", exist_ok=True)
    open(f"{tmp}/expanded/out.rs", "w").write(r.stdout)
    return f"{tmp}/expanded/out.rs", ""


def refused_definitions(tmp, env):
    """the compiler's errors on the sample definitions, if the library itself compiles"""
    d = samples_crate(tmp)
    r = sh(["cargo", "check", "--offline", "--target-dir", f"{d}/target"], cwd=d, env=env)
    if r.returncode == 0:
        return None
    open(f"{d}/src/lib.rs", "w").write("pub use cbored::CborRepr;\n")
    if sh(["cargo", "check", "--offline", "--target-dir", f"{d}/target"], cwd=d, env=env).returncode != 0:
        return None
    return r.stderr[-20000:]


TRUST = {  # harness of /verif/trust -> the specifications it checks, over their whole domain
    "be_bytes": ["external_body fn be_bytes", "external_body fn u16_from_be_bytes", "external_body fn u32_from_be_bytes", "external_body fn u64_from_be_bytes"],
    "try_i64": ["ax_try_i64"],
    "widen": ["ax_widen"],
    "bits": ["assumed specification of f32::from_bits", "assumed specification of f64::from_bits"],
}


def trust(tmp, env):
    """Kani on the trusted specifications of std's number conversions: the harnesses that hold, those that fail"""
    shutil.copytree(f"{HERE}/trust", f"{tmp}/trust", ignore=shutil.ignore_patterns("target"))
    try:
        r = sh(["cargo", "kani", "--target-dir", f"{tmp}/trust-target"], cwd=f"{tmp}/trust", env=env, timeout=300)
    except (OSError, subprocess.TimeoutExpired):
        return [], []
    got = re.findall(r"^Checking harness (\w+)\.\.\.|^VERIFICATION:- (\w+)", r.stdout, re.M)
    pairs = [(got[k][0], got[k + 1][1]) for k in range(len(got) - 1) if got[k][0]]
    return sorted(h for h, x in pairs if x == "SUCCESSFUL"), sorted(h for h, x in pairs if x == "FAILED")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    claims = json.load(open(f"{HERE}/claims.json"))
    if prop not in claims:
        print("unknown property", prop)
        return 2
    tmp = tempfile.mkdtemp(prefix="cbv-")
    try:
        return decide(prop, tier, seed, claims[prop], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, claim, tmp):
    cache = os.environ.get("CBV_CACHE")  # development only: keep the builds
    tv, tf = (f"{cache}/vx", f"{cache}/falsify") if cache else (f"{tmp}/vx", f"{tmp}/falsify")
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    env.pop("RUSTFLAGS", None)
    v = Verifier(prop, tmp, f"{tv}/debug/vx")
    f = Falsifier(prop, tmp, f"{tf}/debug/falsify")
    ms = 8000 if tier == "quick" else 150000

    def fal():
        ok, err, _ = build("falsify", tf, env)
        if not ok:
            f.error = "the falsifier does not build against this tree: " + err[-1500:]
            return
        f.run(seed, ms, tier)

    def ver():
        ok, err, _ = build("vx", tv, env)
        if not ok:
            v.error = "vx does not build: " + err[-1500:]
            return
        v.run()
        if prop in DERIVE and v.error is None:
            path, err = expand(tmp, env)
            if path is None:
                v.error = "the sample definitions: " + err
                return
            d = Verifier(prop, tmp, v.vx, path, v.stubbed)
            d.run()
            v.add(d)
            if v.all_failed and not v.failed and not v.error:
                v.error = "the library does not verify: " + v.all_failed[0]["what"]

    def tru():
        held, broken = trust(tmp, env)
        v.trust_held = held
        if broken:
            v.trust_broken = "a trusted specification of std does not hold here: " + ", ".join(broken)

    ts = [threading.Thread(target=x) for x in (ver, fal, tru)]
    for x in ts:
        x.start()
    for x in ts:
        x.join()
    v.error = v.error or v.trust_broken

    mine = [d for d in v.failed if prop in d["tags"]]
    hard = [d for d in mine if not d["limit"] and d["fn"] not in v.drift]
    soft = [v.drift[f] for f in v.drift if prop in v.fn_tags(f) or f not in {x["fn"] for x in (v.report or {"fns": []})["fns"]}
            or f in v.stubbed and "C04" == prop]
    undecided = v.error or any(prop in v.fn_tags(x) or x == "@theorems" for x in v.stubbed)
    if (mine or undecided) and not f.found and not f.error:
        # look longer for an input behind the failed obligation, or in its place
        f.deep(seed + 1000, 45000 if tier == "quick" else 200000, tier)

    rc = 0
    lines = []
    bounded = None
    undefined = refused_definitions(tmp, env) if prop in LAYOUTS and not f.found and (f.error or v.error) else None
    known = known_findings(prop)
    os.makedirs(f"{HERE}/replays", exist_ok=True)
    nviol = 0
    if f.found:
        txt = open(f.found).read()
        k = next((k for k in known if k["case"] in txt), None)
        if k:
            lines.append(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            path = f"{HERE}/replays/{prop}.txt"
            extra = "".join(f"obligation: {d['fn']}: {d['what']} [{d['message']}]\n" for d in mine)
            open(path, "w").write(txt + extra + f"# replay: cargo run --manifest-path {HERE}/falsify/Cargo.toml -- replay {path}\n")
            for d in mine[:8]:
                print(f"failed obligation: {d['fn']}: {d['what']}")
            print("failing input:", txt.strip().replace("\n", " | ")[:1500])
            lines.append(f"VIOLATION property={prop} replay={path}")
            rc, nviol = 1, 1
    elif undefined:
        path = f"{HERE}/replays/{prop}.txt"
        open(path, "w").write(f"property: {prop}\nthe documented definitions of {HERE}/derived/samples.rs no longer compile with the derive macro of {REPO}\n\n{undefined}")
        print("definitions that no longer compile:", undefined.strip()[:1500])
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc, nviol = 1, 1
    elif hard and not v.error:
        path = f"{HERE}/replays/{prop}.txt"
        with open(path, "w") as o:
            o.write(f"property: {prop}\n")
            for d in mine:
                o.write(f"obligation: {d['fn']}: {d['what']}\n  verus: {d['message']} at generated line {d['gen_line']}: {d['source']}\n")
            o.write("no failing input found by: " + "; ".join(f.budget) + "\n\n" + render(v.raw))
        for d in mine[:8]:
            print(f"failed obligation: {d['fn']}: {d['what']} [{d['message']}]")
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc, nviol = 1, 1
    elif mine or undecided:
        bounded = v.error or "; ".join(v.refused[:3] + [d["what"] for d in mine] + soft[:4])[:900]
    if f.error and rc == 0:
        if bounded or claim["level"] != "proof":
            print("NO VERDICT:", f.error)
            rc = 2
        else:
            print("note:", f.error)
    evidence(prop, tier, seed, claim, v, f, mine, bounded, nviol)
    if bounded and rc == 0:
        print(f"{prop}: not decided by proof on this tree ({bounded[:400]}); bounded search found nothing")
    c = cover(v, prop)
    print(f"{prop} [{tier}] functions under contract {c['functions']}, obligations {c['discharged']}/{c['obligations']}, "
          f"cases {f.evals}, {time.time() - T0:.0f} s")
    for l in lines:
        print(l)
    return rc


def known_findings(prop):
    out = []
    p = f"{HERE}/known-findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) case=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append({"case": m.group(2), "what": m.group(3)})
    return out


def render(raw):
    out = []
    for l in raw.splitlines():
        try:
            out.append(json.loads(l).get("rendered") or "")
        except ValueError:
            pass
    return "\n".join(out)[:60000]


def cover(v, prop):
    r = v.report or {"clauses": [], "fns": [], "under_contract": [], "trusted": [], "loops": {}}
    under = set(r["under_contract"])
    own = {c["fn"] for c in r["clauses"] if prop in c["tags"] and c["kind"] != "requires"}
    fns = [x["fn"] for x in r["fns"] if (prop in x["tags"] or x["fn"] in own) and x["fn"] in under]
    whole = {x["fn"] for x in r["fns"] if prop in x["tags"]}
    tagged = [c for c in r["clauses"] if c["kind"] != "requires" and c["fn"] in under and
              (prop in c["tags"] or (not c["tags"] and c["fn"] in whole))]
    if prop == "C25":
        # of each generated decode: the kind and the context of its errors, and the same of its closures
        fns = [x["fn"] for x in r["fns"] if prop in x["tags"] and x["fn"] in under]
        tagged = [c for c in r["clauses"] if c["fn"] in fns and list(c["tags"]) in (["C23"], ["C24"])] + fns
    bad = {(d["fn"], d["what"]) for d in v.failed if prop in d["tags"]}
    # one obligation per tagged clause, one per function body (its panics, overflows, callee preconditions, termination)
    lem = [u for u in v.units if u and re.search(r"::(lemmas_|vals_|theorems_|events_|codecs_%s)::|^gen::lemma" % ("|derthm_" if prop in LAYOUTS else ""), u)]
    total = len(tagged) + len(fns) + len(lem)
    done = 0 if v.error else total - min(total, len(bad)) - sum(1 for u in lem if not v.units[u][0])
    return {"obligations": total, "discharged": max(0, done), "functions": len(fns), "clauses": len(tagged), "lemmas": len(lem), "names": fns}


def assumed(v):
    """every assumption of the verified text, found mechanically"""
    out = []
    cl = v.gen.splitlines()
    for i, l in enumerate(cl):
        t = l.strip()
        if t.startswith("//"):
            continue
        m = re.search(r"assume_specification.*?\[\s*(.*?)\s*\]\s*\(", l)
        if m:
            out.append("assumed specification of " + m.group(1))
        elif "external_body" in t and "external_body" != t:
            nxt = " ".join(cl[i:i + 6])
            m = re.search(r"\b(fn|struct|enum) (\w+)", nxt.split("external_body", 1)[1])
            if m:
                out.append(f"external_body {m.group(1)} {m.group(2)}")
        elif re.search(r"\b(assume|admit)\s*\(", t):
            out.append("assumption in " + str(v.fn_at(i + 1)) + ": " + t[:160])
        elif re.search(r"\baxiom fn (\w+)|external_type_specification|external_trait_specification", t):
            out.append("axiom or external declaration: " + " ".join(x.strip() for x in cl[i:i + 3])[:160])
    out = sorted(set(out))
    for h in v.trust_held:
        out = [x + " [not assumed: checked over its whole domain by Kani, trust/src/lib.rs]" if any(s in x for s in TRUST.get(h, ["-"])) else x for x in out]
    return out


def evidence(prop, tier, seed, claim, v, f, mine, bounded, nviol):
    c = cover(v, prop)
    r = v.report or {"trusted": [], "dropped": [], "rules": [], "under_contract": [], "uncontracted": []}
    lvl = claim["level"]
    cov = {
        "obligations": c["obligations"],
        "discharged": c["discharged"],
        "checker_cmd": f"vx --root {REPO}/src/lib.rs --contracts {HERE}/contracts --out gen && cd gen && " + v.cmd,
        "back_end": "Verus 0.2026.09.13 with Z3 4.12",
        "solver_ms": v.smt_ms,
        "verified_units_whole_crate": v.verified,
        "functions_under_contract": c["names"],
        "contract_clauses": c["clauses"],
        "theorems": v.theorems(prop),
        "supporting_lemmas": c["lemmas"],
        "trusted_base": [f"trusted contract: {a}: {b}" for a, b in r["trusted"]] + claim.get("trusted", []) + assumed(v) + COMMON_TRUST,
        "extraction": {"rules": r["rules"], "dropped": r["dropped"]},
        "not_under_contract": len(r["uncontracted"]),
        "failed_obligations": [f"{d['fn']}: {d['what']} [{d['message']}]" for d in mine],
        "verifier_state": v.error or "complete",
        "shape_drift": sorted(v.drift.values()),
        "evaluations": f.evals,
        "distinct_nontrivial": f.distinct,
        "rule": "bounded search beside the proof (and in its place for what is not under contract): suites "
                + f.suites + "; all buffers of 1 and 2 bytes, buffers of 3 and 4 bytes over an alphabet of lead and edge bytes, "
                "generated well-formed elements, mutations and event or value sequences; a case counts as non-trivial when the suite exercised the property on it (not refused at the first byte)",
        "samples": f.samples or ["none"],
        "search_budget": f.budget,
        "bounded_part": claim.get("bounded", ""),
        "explanation": claim["note"],
    }
    if prop in DERIVE:
        gen = [u for u in v.units if re.search("::(derived|derthm_)::", str(u))]
        cov["programs"] = len(re.findall(r"^#\[derive\(CborRepr\)\]", open(f"{HERE}/derived/samples.rs").read(), re.M)) if v.derived else 0
        cov["disagreements_checked"] = len(gen)
    if bounded:
        cov["undecided_by_proof"] = bounded
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
        "assumptions": claim.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 2), "violations": nviol,
    }
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as o:
        json.dump(ev, o, indent=1)


COMMON_TRUST = [
    "Verus, its standard library specifications (vstd) and Z3",
    "vx: the mechanical extraction of /repo/src (rewrite rules listed under coverage.extraction)",
    "axioms of contracts/00_crate.vc on std functions without a vstd specification",
]
COMMON_ASSUMPTIONS = [
    "usize is 64 bits wide",
    "the global allocator does not fail",
    "types are extracted with private fields made visible; code outside the crate cannot reach them",
]

if __name__ == "__main__":
    sys.exit(main())

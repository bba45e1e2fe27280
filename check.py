#!/usr/bin/env python3
"""Decides one property of the ntfs crate.

  check.py setup                     build the extractor and the cross-check harness
  check.py C05 [--tier quick|thorough]

The deciding step is Verus accepting every obligation generated from /repo's current sources for the functions
under contract (see DESIGN.md).  The harness runs the real crate: it replays a violation, cross-checks the trusted
parts, and is the (bounded) stand-in for functions the verifier can't take in their current form.
"""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, fcntl

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NTFS_REPO", "/repo")
WORK = os.path.join(V, "work")
VX = os.path.join(V, "vx", "target", "release", "vx")
HARNESS = os.path.join(V, "harness", "target", "release", "harness")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)

# harness budget per property: (quick cases, quick seconds, thorough seconds)
BUDGET = {}
DEFAULT_BUDGET = (400000, 8, 120)
SEARCH_SECONDS = 45


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, **kw)


class Lock:
    def __enter__(self):
        os.makedirs(WORK, exist_ok=True)
        self.f = open(os.path.join(WORK, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def tree_hash():
    h = hashlib.sha256()
    for base in ("src", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, base)
        names = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for n in names:
            h.update(os.path.relpath(n, REPO).encode() + b"\0")
            with open(n, "rb") as f:
                h.update(f.read())
            h.update(b"\0")
    return h.hexdigest()


def build():
    """Builds the extractor and the harness; returns None or an error text."""
    with Lock():
        r = run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(V, "vx"))
        if r.returncode:
            return "the extractor doesn't build:\n" + r.stderr[-3000:]
        # cargo compares time stamps; make sure that other contents are noticed even with old time stamps
        stamp = os.path.join(V, "harness", "target", ".tree")
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != now:
            run(["cargo", "clean", "--release", "--offline", "-p", "ntfs"], cwd=os.path.join(V, "harness"))
        r = run(["cargo", "build", "--release", "--offline", "--locked"], cwd=os.path.join(V, "harness"))
        if r.returncode:
            return "the harness doesn't build against the current tree:\n" + r.stderr[-3000:]
        with open(stamp, "w") as f:
            f.write(now)
    return None


# ------------------------------------------------------------------ harness

def harness(prop, seed, cases, seconds, again=True):
    """Returns (stats, violations)."""
    t0 = time.time()
    if again and os.environ.get("VERIF_NO_HARNESS"):
        return {"prop": prop, "seed": seed, "cases": 0, "wall_s": 0, "violations": []}, []
    try:
        r = run([HARNESS, "check", "--prop", prop, "--seed", str(seed), "--cases", str(cases), "--time", str(seconds), "--hang", "40"],
                timeout=seconds + 120)
        line = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
        d = json.loads(line)
    except (subprocess.TimeoutExpired, ValueError, IndexError) as e:
        # the process died (stack overflow, abort, out of memory); make sure that it was no accident
        if again:
            return harness(prop, seed, cases, seconds, False)
        d = {"prop": prop, "seed": seed, "cases": 0, "wall_s": time.time() - t0, "violations": [{"case": 0, "message": "the harness process ended abnormally: %s" % e}]}
    return d, d["violations"]


# ------------------------------------------------------------------ verifier

VERUS = ["verus", "--crate-type", "lib", "gen.rs", "--cap-lints", "allow", "--num-threads", "8", "--output-json", "--time-expanded", "--error-format=json"]

VERIFY_MSG = re.compile(r"(postcondition|precondition|assertion|invariant|overflow|underflow|division by zero|decreases|bit shift|recommendation|unreachable|"
                        r"index out of bounds|loop ensures|assert|not satisfied|could not prove|panic)", re.I)
RLIMIT_MSG = re.compile(r"(rlimit|resource limit|timed out|timeout|canceled)", re.I)


def extract(out, external, bare, smoke=None, std=False):
    cmd = [VX, "--repo", REPO, "--contracts", os.path.join(V, "contracts"), "--out", out]
    if std:
        cmd += ["--std", "yes"]
    for k in sorted(external):
        cmd += ["--external", k]
    for k in sorted(bare):
        cmd += ["--bare", k]
    if smoke:
        cmd += ["--smoke", smoke]
    r = run(cmd)
    if r.returncode or not os.path.exists(os.path.join(out, "gen.json")):
        return None, r.stderr[-3000:]
    return json.load(open(os.path.join(out, "gen.json"))), ""


def verus(out, modules=None, extra=()):
    cmd = VERUS + list(extra)
    for m in modules or []:
        cmd += ["--verify-only-module", m]
    t0 = time.time()
    try:
        r = run(cmd, cwd=out, timeout=700)
    except subprocess.TimeoutExpired:
        return {}, [], time.time() - t0, "timeout"
    try:
        d = json.loads(r.stdout[r.stdout.index("{"):])
    except ValueError:
        d = {}
    diags = []
    for l in r.stderr.splitlines():
        if l.startswith("{"):
            try:
                x = json.loads(l)
            except ValueError:
                continue
            if x.get("level") == "error" and not x["message"].startswith("aborting due to"):
                diags.append(x)
    return d, diags, time.time() - t0, r.stderr


def lines_of(x):
    """All gen.rs lines a diagnostic refers to, the most specific first."""
    a = []
    for s in x.get("spans", []):
        if s["file_name"].endswith("gen.rs"):
            a.append((s["is_primary"], s["line_start"], s.get("label") or ""))
    for c in x.get("children", []):
        for s in c.get("spans", []):
            if s["file_name"].endswith("gen.rs"):
                a.append((False, s["line_start"], s.get("label") or ""))
    return a


RLIMIT_AGAIN = 100       # resource limit for a function that the solver gave up on
SEEDS_AGAIN = (0, 1, 2)  # solver seeds it is tried with


def verify_again(out, g, seed):
    """Verifies only the function `g`, with more resources. Returns ("proved" | "failed" | "undecided", diagnostics)."""
    name = g["key"].split("::")[-1]
    for pat in ("*::" + name, "*" + name, name):
        d, diags, _, err = verus(out, [g["module"]], ["--verify-function", pat, "--multiple-errors", "2", "--rlimit", str(RLIMIT_AGAIN), "--smt-option", "smt.random_seed=%d" % seed])
        if any("could not find function" in x["message"] or "more than one match" in x["message"] for x in diags):
            continue
        vr = d.get("verification-results") or {}
        here = [x for x in diags if any(g["lines"][0] <= line <= g["lines"][1] for _, line, _ in lines_of(x))]
        if not here:
            return ("proved", []) if vr.get("verified", 0) > 0 and not diags else ("undecided", [])
        sure = [x for x in here if not RLIMIT_MSG.search(x["message"])]
        return ("failed", sure) if sure else ("undecided", [])
    return "undecided", []


class Verifier:
    def __init__(self, out):
        self.out = out
        self.external, self.bare = set(), set()
        self.undecided = {}   # fn key -> reason
        self.broken = None    # reason why nothing could be decided
        self.rounds = 0
        self.soft = {}        # fn key -> proof hints that found no place; without them the function counts if it verifies
        self.again = {}       # fn key -> what came of verifying it once more, with more resources
        self.std = False      # include contracts/std.rs: contracts of further std functions
        self.smt_s = 0.0

    def fn_at(self, line):
        for f in self.gen["functions"]:
            if f["lines"][0] <= line <= f["lines"][1]:
                return f
        return None

    def go(self, modules):
        """Extracts and verifies; self.failed: list of (fn, clause tags or None, message, rendered)."""
        self.failed = []
        for rnd in range(14):
            self.rounds = rnd + 1
            self.gen, err = extract(self.out, self.external, self.bare, None, self.std)
            if self.gen is None:
                self.broken = "extraction failed: " + err
                return
            again = False
            for f in self.gen["functions"]:
                if f["problems"] and all(x.startswith("lost anchor") for x in f["problems"]):
                    self.soft[f["key"]] = "; ".join(f["problems"])
                elif f["problems"] and f["key"] not in self.external:
                    self.external.add(f["key"])
                    self.undecided[f["key"]] = "; ".join(f["problems"])
                    again = True
            if again:
                continue
            if self.gen["problems"]:
                self.notes = self.gen["problems"]
                bad = [x for x in self.gen["problems"] if "discriminant of" in x or "bitflags constant" in x]
                if bad:
                    self.broken = "; ".join(bad)
                    return
            d, diags, wall, err = verus(self.out, modules, ["--multiple-errors", "8"])
            self.wall = wall
            self.result = d
            if err == "timeout":
                self.broken = "the verifier ran out of time"
                return
            vr = d.get("verification-results") or {}
            ran = bool(vr) and not vr.get("encountered-vir-error") and (vr.get("verified", 0) + vr.get("errors", 0) > 0)
            if ran and all(not x.get("code") for x in diags):
                self.collect(self.settle(diags))
                return
            if not self.std and any("may be able to add a Verus specification" in x["message"] for x in diags):
                self.std = True
                continue
            # compile errors: put the functions they lie in out of the verifier's reach
            out_of_reach = set(self.external)
            for x in diags:
                hit = None
                for _, line, _ in lines_of(x):
                    hit = self.fn_at(line)
                    if hit:
                        break
                if hit:
                    k = hit["key"]
                    msg = x["message"][:300]
                    if k not in self.external and hit["mode"] == "verified":
                        self.external.add(k)
                        self.undecided[k] = msg
                        again = True
                    elif (k in out_of_reach or hit["mode"] != "verified") and k not in self.bare:
                        self.bare.add(k)
                        self.undecided[k] = self.undecided.get(k, "") + " / contract: " + msg
                        again = True
            if not again:
                self.broken = "the extracted crate is not accepted: " + ("; ".join(x["message"] for x in diags[:3]) or err[-500:])
                return
        self.broken = "no stable extraction found"

    def settle(self, diags):
        """Tries again what the solver gave up on. Returns the diagnostics of failed obligations."""
        given_up, sure, failing = {}, [], set()
        for x in diags:
            fn = None
            for _, line, _ in lines_of(x):
                fn = fn or self.fn_at(line)
            if RLIMIT_MSG.search(x["message"]):
                if fn:
                    given_up[fn["key"]] = fn
                continue
            sure.append(x)
        # a failed obligation stays one, even if the solver then gave up looking for more
        for g in list(given_up.values()):
            if any(self.exit_of(x) == g["key"] for x in sure):
                del given_up[g["key"]]
        text = re.sub(r"(#\[verifier::rlimit\()\d+(\)\])", r"\g<1>%d\2" % RLIMIT_AGAIN, open(os.path.join(self.out, "gen.rs")).read()) if given_up else ""
        jobs = []
        for k in given_up:
            d = os.path.join(self.out, "again-%d" % len(jobs))
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "gen.rs"), "w").write(text)
            for s in SEEDS_AGAIN:
                jobs.append((k, d, s))
        with concurrent.futures.ThreadPoolExecutor(max_workers=6) as ex:
            got = list(ex.map(lambda j: (j[0],) + verify_again(j[1], given_up[j[0]], j[2]), jobs[:18]))
        for k in given_up:
            mine = [(r, ds) for kk, r, ds in got if kk == k]
            if any(r == "proved" for r, _ in mine):
                self.again[k] = "proved"
            elif any(r == "failed" for r, _ in mine):
                self.again[k] = "failed"
                sure += next(ds for r, ds in mine if r == "failed")
            else:
                self.again[k] = "undecided"
                self.undecided[k] = "solver resources exhausted"
        return sure

    def exit_of(self, x):
        """The function whose body an obligation that failed belongs to."""
        post = x["message"].startswith("postcondition")
        pre = x["message"].startswith("precondition")
        for prim, line, label in lines_of(x):
            if (post and "failed this postcondition" in label) or (pre and "failed precondition" in label):
                continue
            f = self.fn_at(line)
            if f:
                return f["key"]
        return None

    def collect(self, diags):
        """Verification errors."""
        self.failed = []
        for x in diags:
            ls = lines_of(x)
            fn = None
            tags = None
            body = None
            if x["message"].startswith("postcondition"):
                for prim, line, label in ls:
                    if "failed this postcondition" in label:
                        for c in self.gen["clauses"]:
                            if c["lines"][0] <= line <= c["lines"][1]:
                                body = self.fn_at(line)
                                tags = c["tags"] or None
                # the function whose body fails
                for prim, line, label in ls:
                    if "failed this postcondition" not in label:
                        fn = self.fn_at(line) or fn
            else:
                for prim, line, label in ls:
                    if prim:
                        fn = self.fn_at(line) or fn
                if x["message"].startswith("precondition"):
                    for prim, line, label in ls:
                        if "failed precondition" not in label:
                            fn = self.fn_at(line) or fn
            if fn is None:
                for _, line, _ in ls:
                    fn = fn or self.fn_at(line)
            fn = fn or body
            if fn is None and ls:
                # a lemma of a contract file: it speaks for the functions of the same source file
                at = ls[0][1]
                near = min(self.gen["functions"], key=lambda f: min(abs(f["lines"][0] - at), abs(f["lines"][1] - at)))
                props = sorted({p for f in self.gen["functions"] if f["file"] == near["file"] for p in f["props"]})
                fn = {"key": "(lemma for %s)" % near["file"], "file": near["file"], "line": 0, "props": props}
            self.failed.append({"fn": fn["key"] if fn else "(crate)", "file": fn["file"] if fn else "", "line": fn["line"] if fn else 0,
                                "props": (fn["props"] if fn else []), "tags": tags, "message": x["message"], "rendered": x.get("rendered", "")})

    def baseline_calls(self):
        """Crate functions without a contract that functions under contract call."""
        names = {}
        for f in self.gen["functions"]:
            names.setdefault(f["key"].split("::")[-1], []).append(f)
        return names


def attributed(f):
    """Properties a failed obligation speaks about."""
    if f["tags"]:
        return set(f["tags"])
    return set(f["props"]) | {"C22"}


def baseline():
    p = os.path.join(V, "contracts", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {"uncontracted": [], "loops": {}}


def unjudged(gen, key, fresh):
    """Why a failed obligation says nothing about the function: its contract doesn't fit its present form."""
    lost = next((x["problems"] for x in gen["functions"] if x["key"] == key and x["problems"]), None)
    if lost:
        return "; ".join(lost)
    g = next((x for x in gen["functions"] if x["key"] == key), None)
    if g is None:
        return None
    new = set(g["calls"]) & fresh
    if new:
        return "calls %s, which has no contract" % ", ".join(sorted(new))
    if g["loops"] != baseline()["loops"].get(key, ""):
        return "its loops are not those that the invariants are written for"
    return None


def fresh_functions(gen, bare=()):
    """Names of functions without a contract that the unchanged tree doesn't have, or whose contract isn't accepted any more."""
    known = set(baseline()["uncontracted"])
    return {f["key"].split("::")[-1] for f in gen["functions"] if f["mode"] == "uncontracted" and f["key"] not in known or f["key"] in bare}


def scan_trusted(text, gen):
    """Mechanical scan of the extracted crate for anything the verifier takes on trust."""
    out = []
    lines = text.splitlines()
    fn_lines = [(f["lines"][0], f["lines"][1], f) for f in gen["functions"]]
    pend = None
    mod = []
    for n, l in enumerate(lines, 1):
        t = l.strip()
        if re.search(r"\b(admit|assume)\s*\(", t) and not t.startswith("//"):
            out.append("assume: line %d: %s" % (n, t[:100]))
        if "external_body" in t or "assume_specification" in t or "external_type_specification" in t:
            pend = n
        if pend and re.search(r"\b(fn|struct|trait|type)\b", t):
            inside = None
            for a, b, f in fn_lines:
                if a <= n <= b:
                    inside = f
                    break
            if inside is None:
                m = re.search(r"\b(?:fn|struct|trait|type)\s+([A-Za-z0-9_]+)", t)
                out.append("trusted: " + (m.group(1) if m else t[:60]))
            pend = None
    return sorted(set(out))


def check(prop, tier, seed):
    t0 = time.time()
    err = build()
    if err:
        print(err)
        return 2
    os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
    known = [l.strip() for l in open(os.path.join(V, "known-findings.txt"))] if os.path.exists(os.path.join(V, "known-findings.txt")) else []
    cases, qs, ts = BUDGET.get(prop, DEFAULT_BUDGET)
    quick = tier == "quick"
    hs, viol = harness(prop, seed, cases if quick else 10 ** 9, qs if quick else ts)
    runs = [hs]
    out = tempfile.mkdtemp(prefix=prop + "-", dir=WORK)
    rc = 0
    try:
        v = Verifier(out)
        v.go(None)
        mine, undecided_mine, vac, indirect = [], {}, None, []
        total = good = 0
        fns, trusted, unc = [], [], []
        if v.broken is None:
            text = open(os.path.join(out, "gen.rs")).read()
            for f in v.failed:
                if prop in attributed(f):
                    mine.append(f)
            names = {}
            for f in v.gen["functions"]:
                names.setdefault(f["key"].split("::")[-1], []).append(f)
            # a function that now calls something without a contract that wasn't there before can't be judged by its proof
            fresh = fresh_functions(v.gen, v.bare)
            keep = []
            for f in mine:
                why = unjudged(v.gen, f["fn"], fresh)
                if why:
                    undecided_mine[f["fn"]] = why
                else:
                    keep.append(f)
            mine = keep
            fns = [f for f in v.gen["functions"] if f["mode"] == "verified"]
            rel = [f for f in fns if prop in f["props"] or any(c["fn"] == f["key"] and prop in c["tags"] for c in v.gen["clauses"]) or prop == "C22"]
            # callees by name
            seen = {f["key"] for f in rel}
            todo = list(rel)
            while todo:
                f = todo.pop()
                for c in f["calls"]:
                    for g in names.get(c, []):
                        if g["key"] not in seen:
                            seen.add(g["key"])
                            if g["mode"] == "verified":
                                rel.append(g)
                                todo.append(g)
                            elif g["mode"] == "uncontracted":
                                unc.append(g["key"])
            for k, why in v.undecided.items():
                g = next((x for x in v.gen["functions"] if x["key"] == k), None)
                if g is None or prop == "C22" or k in seen or prop in g["props"] or not g["props"]:
                    undecided_mine[k] = why
            # a failed obligation of another property in a function that this property's functions may call
            indirect = sorted({f["fn"] for f in v.failed if f not in mine and f["fn"] in seen})
            vr = v.result.get("verification-results", {})
            total = vr.get("verified", 0) + vr.get("errors", 0)
            good = vr.get("verified", 0) + sum(1 for x in v.again.values() if x == "proved")
            trusted = scan_trusted(text, v.gen)
            # vacuity: a contradiction in preconditions or trusted contracts would make `assert(false)` provable
            if not v.failed:
                vac = {}
                for which in ["start"] if quick else ["start", "tail"]:
                    so = os.path.join(out, "smoke")
                    os.makedirs(so, exist_ok=True)
                    g2, e2 = extract(so, v.external, v.bare, which, v.std)
                    d2, diags2, _, _ = verus(so, None, ["--multiple-errors", "1"])
                    hit = set()
                    lines2 = [(f["lines"][0], f["lines"][1], f["key"]) for f in g2["functions"]]
                    for x in diags2:
                        for _, line, _ in lines_of(x):
                            for a, b, k in lines2:
                                if a <= line <= b:
                                    hit.add(k)
                    allv = {f["key"] for f in g2["functions"] if f["mode"] == "verified"}
                    ok_unreach = set(json.load(open(os.path.join(V, "contracts", "unreachable.json")))) if which == "tail" and os.path.exists(os.path.join(V, "contracts", "unreachable.json")) else set()
                    vac[which] = {"functions": len(allv), "refuted": len(allv & hit), "vacuous": sorted(allv - hit - ok_unreach)}
        else:
            rel = []
            undecided_mine["(everything)"] = v.broken
        if (mine or indirect) and not viol:
            # look for a concrete input
            extra_seed = seed + 7919
            hs2, viol = harness(prop, extra_seed, 10 ** 9, SEARCH_SECONDS if quick else ts)
            runs.append(hs2)
            vseed = extra_seed
        else:
            vseed = seed
        if undecided_mine and not mine and not viol:
            # bounded stand-in: look harder
            hs2, viol = harness(prop, seed + 104729, 10 ** 9, 20 if quick else ts)
            runs.append(hs2)
            vseed = seed + 104729
        if viol or mine:
            path = os.path.join(WORK, "replay", "%s-%d.txt" % (prop, os.getpid()))
            with open(path, "w") as f:
                f.write("property %s is violated on the tree with hash %s\n\n" % (prop, tree_hash()))
                for x in viol:
                    f.write("failing input: case %s, seed %s: %s\nreplay: %s replay --prop %s --seed %s --case %s\n\n" % (x["case"], vseed, x["message"], HARNESS, prop, vseed, x["case"]))
                for x in mine:
                    f.write("failed obligation in %s (%s:%s): %s\n%s\n" % (x["fn"], x["file"], x["line"], x["message"], x["rendered"]))
            for x in viol[:1]:
                print("failing input (seed %s, case %s): %s" % (vseed, x["case"], x["message"]))
            for x in mine[:4]:
                print("failed obligation in %s (%s:%s): %s" % (x["fn"], x["file"], x["line"], x["message"]))
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if viol else " no-failing-input-found"))
            rc = 1
        vacuous = [k for w in (vac or {}).values() for k in w["vacuous"]]
        if rc == 0 and vacuous:
            print("the contracts of these functions are vacuous: " + ", ".join(vacuous))
            rc = 2
        for l in known:
            if rc != 2 and l.startswith("known: property=%s " % prop):
                print("KNOWN-FINDING: " + l[len("known: "):])
        man = json.load(open(os.path.join(V, "MANIFEST.json")))
        level = next((c["level"] for c in man["checks"] if c["property"] == prop), "other")
        mine_fns = sorted(f["key"] for f in rel)
        nobl = {}
        for m in (v.result.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) if v.broken is None else []):
            for fb in m.get("function-breakdown", []):
                nobl[fb.get("function")] = fb
        smt_ms = v.result.get("times-ms", {}).get("smt", {}).get("total", 0) if v.broken is None else 0
        cov = {
            "obligations": total,
            "discharged": good,
            "checker_cmd": " ".join(VERUS[:7]) + " (verus 0.2026.09.13, Z3), on the crate extracted from /repo by vx in this run",
            "trusted_base": trusted,
            "functions_under_contract": mine_fns,
            "functions_under_contract_crate": len(fns),
            "reached_without_contract": sorted(set(unc)),
            "undecided_functions": undecided_mine,
            "failed_obligations": [{"fn": f["fn"], "message": f["message"]} for f in (v.failed if v.broken is None else [])],
            "vacuity": vac,
            "smt_ms": smt_ms,
            "verifier_wall_s": round(getattr(v, "wall", 0.0), 2),
            "verifier_rounds": v.rounds,
            "harness_cases": sum(x["cases"] for x in runs),
            "harness_rule": "generated cases of generator %s, one per (seed, case number), each run against the real crate and compared with the generator's model (bounded, never counted as proved)" % prop,
            "harness_samples": ["harness replay --prop %s --seed %s --case %d" % (prop, x["seed"], max(0, x["cases"] - 1)) for x in runs],
            "explanation": explanation(prop, undecided_mine, sorted(set(unc))),
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viol) + len(mine)}
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if rc == 0:
            print("%s held: %d of %d obligations discharged (%d functions under contract for it), %d harness cases, %.1f s%s" % (
                prop, good, total, len(mine_fns), cov["harness_cases"], time.time() - t0,
                "; UNDECIDED, bounded only: " + ", ".join(sorted(undecided_mine)) if undecided_mine else ""))
        return rc
    finally:
        shutil.rmtree(out, ignore_errors=True)


ASSUMPTIONS = [
    "the contracts of std/core, binrw, arrayvec, byteorder and nt-string functions in contracts/prelude.rs (listed in trusted_base)",
    "derive expansions (BinRead field order and offsets, enumn, bitflags, memoffset) as generated by vx",
    "usize has 64 bits; allocation never fails",
    "the harness cross-check is bounded by the number of cases it reports",
]


def explanation(prop, und, unc):
    s = "Verus discharges every obligation of the functions under contract for all inputs and iterations."
    if unc:
        s += " Functions reached without a contract are covered by the bounded harness only."
    if und:
        s += " In this run some functions were outside the verifier's reach and are covered by the bounded harness only."
    return s


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        e = build()
        if e:
            print(e)
            return 1
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return check(prop, tier, seed)


if __name__ == "__main__":
    sys.exit(main())

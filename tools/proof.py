"""Deductive part: contracts on /repo's own functions, discharged by Verus.

decide(prop, tier) extracts the functions from /repo's current source, adds the contracts of
/verif/proof, keeps the bodies of those the property rests on, and runs the verifier.

A function's body is dropped, leaving its contract assumed, when it is outside the property's cone
(another property's check proves it), or when the source no longer lets the extraction or the
verifier's front end follow it.  The latter makes the function undecided: never a violation, and
never counted as proved."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "tools" / "vx"))
import gen, rs  # noqa: E402

TIMEOUT = {"quick": 420, "thorough": 1500}
DEADLINE = {"quick": 480, "thorough": 2400}
SLICED = "outside the cone"


class Run:
    def __init__(self):
        self.errors, self.smt_ms, self.fns, self.verified, self.results = [], 0, {}, 0, None
        self.front_end = False
        self.timed_out = False


def verus(g, tier, extra=(), timeout=None):
    """One run of the verifier on generated text."""
    d = tempfile.mkdtemp(prefix="vx-", dir=str(VERIF / "build"))
    r = Run()
    try:
        (Path(d) / "g.rs").write_text(g.text)
        cmd = ["verus", "g.rs", "--num-threads", "8", "--triggers-mode", "silent", "--multiple-errors", "3", "--rlimit", "40", "-V", "spinoff-all",
               "--output-json", "--time-expanded", "--error-format=json", *extra]
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=timeout or TIMEOUT[tier])
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            r.timed_out = True
            return r
        for line in err.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") == "error" and m.get("spans"):
                r.errors.append(m)
            elif m.get("level") == "error" and "aborting" not in m["message"]:
                r.errors.append(m)
        try:
            j = json.loads(out[out.index("{"):])
        except ValueError:
            r.front_end = True
            if not r.errors:
                r.errors.append({"message": (err or out)[-2000:], "spans": [], "rendered": (err or out)[-2000:]})
            return r
        v = j.get("verification-results", {})
        r.results = v
        if v.get("encountered-vir-error") or "verified" not in v or \
                (v["errors"] == 0 and not v.get("success", not v.get("encountered-error"))):
            r.front_end = True
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                r.fns[f["function"].split("::", 1)[1]] = dict(ms=f["time"], ok=f["success"], kind=f["mode:"])
        r.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        r.verified = v.get("verified", 0)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def owner(g, m):
    """The extracted function an error message is about."""
    spans = [s for s in m["spans"] if s.get("label") != "failed precondition"] or m["spans"]
    for s in sorted(spans, key=lambda s: not s["is_primary"]):
        n = s["line_start"] - 1
        if n < len(g.map) and g.map[n]:
            return g.map[n][0]
        for f, (a, b) in g.ranges.items():
            if a <= n < b:
                return f
    return None


def where(g, m):
    for s in sorted(m["spans"], key=lambda s: not s["is_primary"]):
        n = s["line_start"] - 1
        if n < len(g.map) and g.map[n] and g.map[n][2] > 0:
            return "%s:%d" % g.map[n][1:]
    return None


UNDECIDED = re.compile(r"[Rr]esource limit|rlimit|timed out|solver|could not finish|canceled")


def cone(g, prop):
    """The functions the property names, and those they call, by name."""
    top = [f for f, c in g.fns.items() if prop in c.props]
    if prop == "C16":
        return set(top), set(g.fns)
    by = {}
    for f, c in g.fns.items():
        if c.mod not in gen.ISOLATED:      # reached through the contracts of base and conc, not by name
            by.setdefault(c.ident(), []).append(f)
    seen, todo = set(), list(top)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for w in g.words.get(f, ()):
            todo += by.get(w, [])
    # what every property stands on: lengths, the key and value slices, ...
    return set(top) | {f for f in seen if not g.fns[f].props}, seen


# C16 asks of every function that it completes, and of the rest of each contract nothing.
COMPLETES = re.compile(r"precondition not satisfied|arithmetic (under|over)flow|decreases|termination|possible division|"
                       r"recommendation|shift", re.I)


class Result:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.failed, self.elsewhere, self.undecided = [], [], {}
        self.proved, self.trusted, self.lemmas = [], {}, 0
        self.obligations = self.discharged = 0
        self.smt_ms, self.wall = 0, 0.0
        self.dead, self.note, self.vacuity = None, "", None
        self.trusted_base = []
        self.top = set()
        self.retried = 0

    def summary(self):
        if self.dead:
            return "proof not available: " + self.dead
        s = "proof: %d of %d obligations discharged, %d functions under contract" % (
            self.discharged, self.obligations, len(self.proved))
        if self.undecided:
            s += "; UNDECIDED, left to the bounded search: " + "; ".join("%s (%s)" % kv for kv in sorted(self.undecided.items()))
        return s

    def evidence(self, prop):
        lv = json.loads((VERIF / "tools" / "levels.json").read_text()).get(prop, {})
        level = lv.get("level", "exploration")
        if self.dead or self.undecided:
            level = "exploration"
        cov = {"obligations": self.obligations, "discharged": self.discharged,
               "obligation": "one per function: the verification condition Verus generates from the contract and "
                             "body of an extracted function, or from a lemma",
               "checker_cmd": "verus <generated>.rs --num-threads 8 (text generated by tools/vx/gen.py from /repo/src "
                              "and proof/)",
               "backend": "Verus 0.2026.09.13, Z3",
               "functions_proved": sorted(self.proved), "lemmas": self.lemmas,
               "functions_trusted": self.trusted, "undecided": self.undecided,
               "failed_obligations": [f["name"] for f in self.failed],
               "failed_elsewhere": [f["name"] for f in self.elsewhere],
               "solver_ms": self.smt_ms, "reruns_with_another_seed": self.retried, "proof_wall_s": round(self.wall, 1),
               "trusted_base": self.trusted_base,
               "not_proved": lv.get("bounded", [])}
        if self.dead:
            cov["proof_unavailable"] = self.dead
        if self.vacuity is not None:
            cov["vacuity_guard"] = self.vacuity
        return {"level": level, "coverage": cov, "assumptions": lv.get("assumptions", []) + COMMON}


COMMON = [
    "Verus and Z3 are sound; rustc compiles what Verus read",
    "Ord, Clone and Deref of keys and values obey their laws: a total order compatible with Eq, clones equal to "
    "their originals, no side effects on trees (proof/base.rs: axioms group_laws)",
    "tools/vx/gen.py changes nothing but what its RULES and the `sub` lines of the contracts list",
]


def trusted_base(text):
    out = []
    for m in re.finditer(r"(?m)^\s*(?:#\[verifier::external_body\]\s*)?(?:pub\s+)?(?:broadcast\s+)?(?:proof|axiom) fn (axiom_\w+)", text):
        out.append("axiom " + m.group(1))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (?:unsafe )?(?:exec )?(fn|struct|broadcast proof fn|proof fn) (\w+)", text):
        out.append("assumed contract: " + m.group(2))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        out.append("ASSUME in text at offset %d" % m.start())
    seen, res = set(), []
    for x in out:
        if x not in seen:
            seen.add(x)
            res.append(x)
    return res


UNCONTRACTED = {("array.rs", "ptr"), ("array.rs", "mut_ptr"), ("branch.rs", "tree_fmt"), ("arch.rs", "prefetch")}


def uncovered(g):
    """Functions of the crate that no contract speaks of and no contracted function is proved through:
    {name: properties of its type}.  (Helpers that are called are inlined, see vx/inline.py.)"""
    have = {(c.file, c.key.split("::")[-1], c.key.split("::")[0].split(" as ")[0]) for c in g.fns.values()}
    names = {c.key.split("::")[-1] for c in g.fns.values()}
    called = {w for ws in g.words.values() for w in ws}
    out = {}
    for path, f in g.files.items():
        if path == "tests.rs":
            continue
        for fn in f.fns + [x for im in f.impls for x in im.fns]:
            ty = fn.impl.type_name() if fn.impl else None
            trait = gen.rs.text(fn.impl.trait) if fn.impl and fn.impl.trait else None
            if (path, fn.name) in UNCONTRACTED or trait and "Debug" in trait or any(
                    (path, fn.name, t) in have for t in (ty, fn.name)):
                continue
            if not trait and fn.name in called and fn.name not in names:
                continue
            props = {p for c in g.fns.values() if ty and c.key.split("::")[0].split(" as ")[0] == ty for p in c.props}
            out["%s%s::%s in %s" % (ty or "", " as " + trait if trait else "", fn.name, path)] = props
    return out


def decide(prop, tier):
    t0 = time.time()
    res = Result(prop, tier)
    try:
        g = gen.generate()
    except (gen.Bad, IndexError, KeyError) as e:
        res.dead = str(e)
        return res
    top, cn = cone(g, prop)
    res.top = top
    if not top:
        res.dead = "no function of this property is under contract yet"
        return res
    stubs = {f: SLICED for f in g.fns if f not in cn}
    lost = {f: why for f, why in g.stubs.items()}
    r = None
    for attempt in range(12):
        g = gen.generate({**stubs, **lost})
        lost.update({f: w for f, w in g.stubs.items() if f not in stubs})
        r = verus(g, tier)
        if r.timed_out or not r.front_end:
            break
        hit = {}
        for m in r.errors:
            f = owner(g, m)
            if f and f not in lost and f not in stubs:
                hit.setdefault(f, "front end: " + m["message"].split("\n")[0][:200])
        if not hit:
            res.dead = "the verifier's front end rejects the generated text: " + (r.errors[0]["message"][:300] if r.errors else "?")
            break
        lost.update(hit)
    else:
        res.dead = "too many functions the front end cannot follow"
    res.wall = time.time() - t0
    if r.timed_out:
        res.dead = "the verifier ran out of time"
    res.undecided = {f: w for f, w in lost.items() if f in cn}
    for f, props in uncovered(g).items():
        if prop in props or not props:
            res.undecided[f] = "no contract speaks of this function"
    if res.dead:
        return res
    # What another random seed, or a loop that sees more of its surroundings, proves is proved: the
    # solver is incomplete, not inconsistent.
    errors = r.errors
    for seed, loosely in ((3, True), (11, False)):
        left = DEADLINE[tier] - (time.time() - t0)
        if not errors or left < 60:
            break
        suspects = {owner(g, m) for m in errors}
        again_g = gen.generate({**stubs, **lost}, loose=suspects if loosely else ())
        mods = [] if None in suspects else [x for f in sorted({g.fns[f].mod for f in suspects}) for x in ("--verify-module", f)]
        again = verus(again_g, tier, ("--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed, *mods), left)
        if again.timed_out or again.front_end:
            break
        both = suspects & {owner(again_g, m) for m in again.errors}
        kept = [m for m in errors if owner(g, m) in both]
        r.smt_ms += again.smt_ms
        res.retried += 1
        if not kept:
            r.results["verified"], r.results["errors"] = r.results["verified"] + r.results["errors"], 0
        errors = kept
    res.wall = time.time() - t0
    bad = set()
    lemma_bad = False
    for m in errors:
        f = owner(g, m)
        if f is None:
            lemma_bad = True
            res.undecided["lemma"] = m["message"].split("\n")[0][:200] + " " + json.dumps([s["line_start"] for s in m["spans"]])
            continue
        bad.add(f)
        if UNDECIDED.search(m["message"]):
            if f not in [x["fn"] for x in res.failed + res.elsewhere]:
                res.undecided[f] = "solver gave up: " + m["message"].split("\n")[0][:120]
            continue
        if g.fns[f].missing:
            res.undecided[f] = "rejected, but a hint of the proof has lost its place: `%s`" % g.fns[f].missing[0]
            continue
        at = where(g, m)
        entry = {"fn": f, "name": "%s: %s%s" % (f, m["message"].split("\n")[0], " (%s)" % at if at else ""),
                 "output": m.get("rendered", m["message"])}
        mine = f in top or prop == "C16" and COMPLETES.search(m["message"])
        (res.failed if mine else res.elsewhere).append(entry)
        if mine:
            res.undecided.pop(f, None)
    for e in res.elsewhere:
        res.undecided.setdefault(e["fn"], "rejected; reported by the properties this function belongs to: "
                                 + ", ".join(g.fns[e["fn"]].props))
    res.obligations = (r.results or {}).get("verified", 0) + (r.results or {}).get("errors", 0) + \
        len([f for f in lost if f in cn])
    res.discharged = (r.results or {}).get("verified", 0)
    for f in sorted(cn):
        c = g.fns[f]
        if c.trusted:
            res.trusted[f] = c.trusted
            res.undecided.pop(f, None)
        elif f not in bad and f not in lost:
            res.proved.append(f)
    res.lemmas = max(0, res.discharged - len(res.proved))
    res.obligations -= len(res.trusted)
    res.smt_ms = r.smt_ms
    res.trusted_base = trusted_base(gen.base_text(g))
    if tier == "thorough":
        res.vacuity = vacuity(stubs, lost, g)
    return res


def vacuity(stubs, lost, g0):
    """Every proved function must reject `assert(false)` at its start: no contract assumes the impossible."""
    g = gen.generate({**stubs, **lost}, poison=True)
    r = verus(g, "thorough", ("--rlimit", "3"))
    if r.timed_out or r.front_end:
        return "could not run"
    bad = {owner(g, m) for m in r.errors}
    live = [f for f in g.fns if f not in stubs and f not in lost and not g.fns[f].trusted]
    return {"poisoned": len(live), "accepted_although_poisoned": sorted(f for f in live if f not in bad)}


if __name__ == "__main__":
    (VERIF / "build").mkdir(exist_ok=True)
    res = decide(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "quick")
    print(res.summary())
    for f in res.failed + res.elsewhere:
        print(f["name"])
    print(json.dumps(res.evidence(sys.argv[1]), indent=1)[:6000])

#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for /repo's current tree.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check could not run.
"""
import json, os, sys, threading, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "tools"))
import search, shrink, proof  # noqa: E402

QUICK_BUDGET, DEEP_BUDGET, THOROUGH_BUDGET = 25, 120, 300


def known_findings(prop, bins):
    """Print a KNOWN-FINDING line for each listed finding of the property."""
    n = 0
    for line in (VERIF / "known_findings.txt").read_text().splitlines():
        if line.startswith("finding: property=%s " % prop):
            _, _, rest = line.partition("property=%s " % prop)
            print("KNOWN-FINDING: property=%s %s" % (prop, rest))
            n += 1
    return n


def main():
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    (VERIF / "build").mkdir(exist_ok=True)
    (VERIF / "evidence" / "replay").mkdir(parents=True, exist_ok=True)
    box = {}

    def prove():
        try:
            box["proof"] = proof.decide(prop, tier)
        except Exception:
            box["proof_error"] = traceback.format_exc()

    th = threading.Thread(target=prove)
    th.start()
    try:
        bins = search.build()
    except search.BuildError as e:
        th.join()
        print("ERROR: the harness does not build against /repo:\n" + str(e))
        return 2
    known_findings(prop, bins)
    budget = QUICK_BUDGET if tier == "quick" else THOROUGH_BUDGET
    runs = [search.Search(bins, prop, seed, budget)]
    found = runs[0].run()
    th.join()
    if "proof_error" in box:
        print("ERROR: " + box["proof_error"])
        return 2
    pr = box["proof"]
    if pr.failed and not found and runs[0].found is None:
        s = search.Search(bins, prop, seed + 1000003, DEEP_BUDGET, workers=8)
        runs.append(s)
        found = s.run()
    totals = {}
    for r in runs:
        for k, v in r.totals.items():
            totals[k] = max(totals.get(k, 0), v) if k == "max_keys" else totals.get(k, 0) + v
    replay = None
    if found:
        profile, index, msg = found
        text = runs[-1].history(bins[profile], index)
        small = shrink.shrink(bins[profile], prop, text, budget=45)
        why = shrink.blamed(bins[profile], prop, small, 10) or msg
        replay = VERIF / "evidence" / "replay" / ("%s.hist" % prop)
        head = ["property %s, harness profile %s" % (prop, profile), "what fails: " + why.replace("\n", " ")[:2000],
                "replay: cargo build%s --offline --manifest-path harness/Cargo.toml && <target>/palmcheck replay %s %s"
                % (" --release" if profile == "release" else "", prop, replay)]
        if pr.failed:
            head.append("the verifier also rejects: " + "; ".join(f["name"] for f in pr.failed))
        replay.write_text("".join("# %s\n" % h for h in head) + small)
        print("what fails: " + why[:600])
    elif pr.failed:
        replay = VERIF / "evidence" / "replay" / ("%s.obligations.txt" % prop)
        replay.write_text(
            "property %s: the verifier rejects these obligations, generated from /repo's current source\n\n" % prop
            + "\n".join("== %s\n%s\n" % (f["name"], f["output"]) for f in pr.failed)
            + "\nSearched without finding a failing input: %s\n" % json.dumps(totals))
        for f in pr.failed:
            print("obligation not discharged: " + f["name"])
    violations = 1 if found or pr.failed else 0
    ev = pr.evidence(prop)
    ev.update(property=prop, tier=tier, seed=seed, wall_s=round(time.time() - t0, 1), violations=violations)
    ev["coverage"].update(
        bounded_stand_in="histories of operations on real trees compared with BTreeMap models, generated from the "
                         "seed, both build profiles, node capacities 4..7 and 64, all pointer kinds, at most %d keys "
                         "in a tree; labelled bounded, not counted as proved" % totals["max_keys"],
        evaluations=totals["histories"], distinct_nontrivial=totals["distinct_states"],
        operations=totals["ops"], tree_comparisons=totals["checks"],
        rule="a case is one generated history; distinct_nontrivial counts distinct (configuration, key set) states "
             "reached", samples=[runs[0].history(bins["debug"], 0), runs[0].history(bins["debug"], 7)])
    if totals["histories"] == 0 and not violations:
        print("ERROR: the bounded search ran no history")
        return 2
    (VERIF / "evidence" / ("%s.json" % prop)).write_text(json.dumps(ev, indent=1))
    if violations:
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, "" if found else " no-failing-input-found"))
        return 1
    print("held: property=%s %s; bounded: %d histories, %d operations" %
          (prop, pr.summary(), totals["histories"], totals["ops"]))
    return 0


if __name__ == "__main__":
    sys.exit(main())

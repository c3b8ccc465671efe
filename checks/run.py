"""run.py PROPERTY [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored; exit 1: VIOLATION line; exit 2: the check itself failed."""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "vlib"))
sys.path.insert(0, HERE)
import fw          # noqa
import rtl         # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid.lower())
    fw.load_known(pid)
    ev = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, "replay_%s.json" % pid)
    evf = os.path.join(ev, "%s.json" % pid)
    level = "exploration"

    def evidence(viol, cov):
        json.dump({"property": pid, "tier": a.tier, "seed": seed, "level": level, "coverage": cov,
                   "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": viol},
                  open(evf, "w"), indent=1)

    def violation(rec):
        json.dump(rec, open(replay, "w"), indent=1)
        print("part %s: %s" % (rec["part"], rec["msg"]))
        print("case: %s" % json.dumps(fw.shorten(rec["case"])))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(replay, VERIF)))

    if a.replay:
        rec = json.load(open(a.replay))
        try:
            parts = mod.parts(rec.get("tier", a.tier), rec.get("seed", seed))
            for p in parts:
                if p.name == rec["part"]:
                    p.run(rec["case"])
        except fw.Violation as v:
            print(v)
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        print("no violation on replay")
        return 0
    cov0 = {"evaluations": 0, "distinct_nontrivial": 0, "rule": mod.RULE, "samples": []}
    try:
        parts = mod.parts(a.tier, seed)
    except fw.Violation as v:
        rec = {"property": pid, "part": "build", "case": {"build": str(v)[:3000]}, "msg": str(v)[:3000], "seed": seed,
               "tier": a.tier}
        violation(rec)
        evidence(1, dict(cov0, samples=[rec["case"]], evaluations=1))
        return 1
    if a.only:
        parts = [p for p in parts if a.only in p.name]
    if a.scale != 1:
        for p in parts:
            p.n = max(1, int(p.n * a.scale))
    budget = float(os.environ.get("VERIF_BUDGET", "400" if a.tier == "quick" else "3000"))
    tb = time.time()
    res = fw.execute(parts, seed, budget)
    errs = [r["error"] for r in res if r.get("error")]
    fails = [dict(r["fail"], known=False) for r in res if r.get("fail")]
    nt = set()
    labels = {}
    per = {}
    samples = []
    total = 0
    timeouts = 0
    known = {}
    for r in res:
        if "ev" not in r:
            continue
        total += r["ev"]
        nt |= {(r["part"], x) for x in r["nt"]}
        timeouts += r["timeout"]
        p = per.setdefault(r["part"], {"evaluations": 0, "labels": {}})
        p["evaluations"] += r["ev"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
        known.update(r["known"])
    seen = {}
    for r in res:
        for s in r.get("samples", []):
            if seen.get(s["part"], 0) < 2:
                seen[s["part"]] = seen.get(s["part"], 0) + 1
                samples.append(s)
    cov = {"evaluations": total, "distinct_nontrivial": len(nt), "rule": mod.RULE, "samples": samples,
           "parts": per, "shards_stopped_by_the_time_limit": timeouts, "build_s": round(tb - t0, 2)}
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, fw.KNOWN[k]))
    for k in sorted(per):
        print("%-28s %6d cases  %s" % (k, per[k]["evaluations"],
                                       " ".join("%s=%d" % x for x in sorted(per[k]["labels"].items())[:14])))
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (pid, total, len(nt), time.time() - t0))
    if fails:
        f = min(fails, key=lambda x: x["size"])
        violation({"property": pid, "part": f["part"], "case": f["case"], "msg": f["msg"], "seed": seed,
                   "tier": a.tier})
        evidence(len(fails), cov)
        return 1
    evidence(0, cov)
    if errs:
        print("CHECK ERROR\n" + errs[0])
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(rc)

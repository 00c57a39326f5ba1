#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property on /repo's tree.

exit 0  every obligation of every encoded path was decided and holds
        (known findings are printed, not raised)
exit 1  a solver counterexample was reproduced on the natively compiled code
exit 2  the check could not decide (error, limit, unreplayable model)
"""
import json, os, sys, time, re, collections, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)
import bsym
from concurrent.futures import ThreadPoolExecutor
from props import PROPS

FINDINGS = os.path.join(HERE, "known_findings.json")


def load_findings(pid):
    if not os.path.exists(FINDINGS):
        return []
    return [f for f in json.load(open(FINDINGS))["findings"] if f["property"] == pid]


def matches(f, harness, case, label, ce):
    if f["harness"] != harness or not re.fullmatch(f.get("case", ".*"), case) or not re.fullmatch(f["label"], label):
        return False
    for name, lo, hi in f.get("where", []):
        if name not in ce or not (lo <= ce[name] <= hi):
            return False
    return True


def real_functions(fns):
    """demangled names of the functions of the system under check that were executed symbolically"""
    import subprocess
    names = sorted(fns)
    d = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n")
    r = sorted({x for x in d if re.match(r"(non-virtual thunk to )?[^(]*\b(BSMPT|tk|cvspline|mcubic_hermite|ThermalFunctions)\b", x) and not x.startswith(("std::", "Eigen::", "void std::", "_GLOBAL"))})
    return {"count": len(r), "names": r[:150]}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    t0 = time.time()
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P["level"], "coverage": {}, "assumptions": P["assumptions"],
          "wall_s": 0.0, "violations": 0}
    runs = [r for r in P["runs"] if tier == "thorough" or r.get("tier", "quick") == "quick"]
    problems, viols, known = [], [], []
    obs = collections.Counter()
    meth = collections.Counter()
    labels = collections.defaultdict(collections.Counter)
    tot = collections.Counter()
    fns = set()
    samples = []
    reach = collections.Counter()

    def finish(code):
        ev["wall_s"] = round(time.time() - t0, 2)
        ev["violations"] = len(viols)
        expl = ("Real code of /repo compiled to LLVM IR and executed symbolically (inputs are solver variables, doubles "
                "interpreted as exact reals, every feasible branch outcome is its own path); each obligation on each path was "
                "decided for every value within the bounds by z3 (feasibility, refutation queries and the linear-arithmetic "
                "query on the normal-form residual). " + P["bounds"])
        ev["coverage"] = {
            "explanation": expl,
            "bounds": P["bounds"], "outside": P.get("outside", ""),
            "functions_encoded": real_functions(fns),
            "paths_explored": tot["paths"], "symbolic_branches": tot["branches"],
            "obligations": sum(obs.values()), "discharged": obs["holds"], "obligations_by_status": dict(obs), "obligations_by_method": dict(meth),
            "obligations_by_label": {k: dict(v) for k, v in labels.items()},
            "solver_queries": tot["solver_queries"], "solver_s": round(tot["solver_us"] / 1e6, 3),
            "sat": tot["sat"], "unsat": tot["unsat"], "unknown": tot["unknown"],
            "runs": [r["h"] + ":" + r["c"] for r in runs],
            "reachability_witnesses": dict(reach),
            "known_findings_seen": len(known), "undecided": problems[:20], "samples": samples[:8],
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        sys.stdout.flush()
        sys.exit(code)

    # build all harnesses (sources are compiled once, content-cached)
    exes = {}
    try:
        hs = []
        for r in runs:
            if r["h"] not in hs:
                hs.append(r["h"])
        bsym.setup()
        bsym.prewarm(hs)
        with ThreadPoolExecutor(4) as ex:
            for h, e in zip(hs, ex.map(bsym.build, hs)):
                exes[h] = e
    except bsym.BuildError as e:
        print("check %s: BUILD ERROR\n%s" % (pid, e))
        problems.append("build: " + str(e)[:500])
        finish(2)
    tb = time.time() - t0
    njobs = int(os.environ.get("BSYM_JOBS", str(min(8, os.cpu_count() or 8))))
    par = min(len(runs), njobs)

    def one(r):
        env = {k: str(v) for k, v in r.get("env", {}).items()}
        tmo = r.get("timeout", 240 if tier == "quick" else 1500)
        recs, wall = bsym.run_symbolic(exes[r["h"]][0], r["c"], env, tmo, max(1, (njobs + par - 1) // par) if par > 2 else njobs)
        return r, recs, wall

    order = sorted(runs, key=lambda r: -r.get("weight", 1))
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(one, order))
    fails = {}
    for r, recs, wall in results:
        key = r["h"] + ":" + r["c"]
        seen_labels = set()
        seen_reach = set()
        for x in recs:
            k = x["kind"]
            if k == "ob":
                obs[x["status"]] += 1
                meth[x.get("method", "?")] += 1
                labels[r["h"] + "/" + x["label"]][x["status"]] += 1
                seen_labels.add(x["label"])
                if len(samples) < 8 and x["status"] == "holds" and x.get("method") != "fold" and \
                        not any(s["obligation"] == r["h"] + "/" + x["label"] for s in samples):
                    samples.append({"run": key, "obligation": r["h"] + "/" + x["label"], "verdict": "unsat (holds)", "method": x["method"],
                                    "terms": x.get("terms"), "path_constraints": x.get("pc"), "solver_s": x.get("secs")})
                if x["status"] == "unknown":
                    problems.append("%s: undecided obligation '%s' %s" % (key, x["label"], x.get("info", "")[:200]))
                elif x["status"] == "fails":
                    fails.setdefault((r["h"], r["c"], x["label"]), []).append(x)
            elif k == "reach":
                if x.get("sat") == 1:
                    reach[key + "/" + x["label"]] += 1
                    seen_reach.add(x["label"])
            elif k == "error":
                problems.append("%s: %s" % (key, str(x.get("msg", x))[:300]))
            elif k == "summary":
                for f in ("paths", "branches", "solver_queries", "solver_us", "sat", "unsat", "unknown"):
                    tot[f] += x.get(f, 0)
            elif k == "cov":
                fns.update(x["fns"])
        for w in r.get("reach", ["end"]):
            if w not in seen_reach:
                problems.append("%s: reachability witness '%s' not reached (vacuous)" % (key, w))
    rdir = os.path.join(HERE, "build", "replay", pid)
    n = 0
    for (h, c, lab), xs in fails.items():
        reported = False
        spurious = 0
        rep_known = None
        for ce in [c for x in xs[:40] for c in (x.get("ce") or [{}])][:60]:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%s-%d.txt" % (h, re.sub(r"\W+", "_", c + "_" + lab), n))
            n += 1
            rc, msg = bsym.replay(exes[h][1], c, ce, lab, path)
            with open(path, "a") as f:
                f.write("# harness %s case %s obligation %s\n# replay: BS_CASE='%s' BS_ONLY='%s' %s %s  -> %d\n# %s\n" % (
                    h, c, lab, c, lab, exes[h][1], path, rc, msg.replace("\n", "\n# ")))
            if rc in (1, 3) or rc < 0 or rc >= 128:
                kf = [f for f in load_findings(pid) if matches(f, h, c, lab, ce)]
                if kf:
                    if rep_known is None:
                        rep_known = (kf[0], path)
                    continue
                viols.append((h, c, lab, path, msg))
                reported = True
                break
            spurious += 1
            os.unlink(path)
        if rep_known:
            known.append(rep_known)
            if not any(k[0] is rep_known[0] or k[0]["what"] == rep_known[0]["what"] for k in known[:-1]):
                print("KNOWN-FINDING: property=%s %s" % (pid, rep_known[0]["what"]))
        elif not reported:
            problems.append("%s:%s: counterexample of '%s' did not reproduce natively" % (h, c, lab))
    for h, c, lab, path, msg in viols:
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  harness=%s case=%s obligation=%s\n  %s" % (h, c, lab, msg.strip().replace("\n", "\n  ")[:800]))
    print("check %s tier=%s: %d runs, %d paths, obligations %s, %d solver queries (%.1fs), build %.1fs, wall %.1fs" % (
        pid, tier, len(runs), tot["paths"], dict(obs), tot["solver_queries"], tot["solver_us"] / 1e6, tb, time.time() - t0))
    if viols:
        finish(1)
    if problems:
        print("check %s: UNDECIDED:\n  " % pid + "\n  ".join(problems[:20]))
        finish(2)
    if not obs.get("holds"):
        print("check %s: no obligation was generated" % pid)
        finish(2)
    finish(0)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)

"""Runs the check of one property:  python3 -m pbt.run P05 [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--facet NAME]"""
import argparse, importlib, json, multiprocessing as mp, os, queue, sys, time, traceback
from . import build, core
from .core import VERIF


def out_path(pid, rec):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%d.json" % (pid, os.getpid()))
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--facet")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--cap", type=float)
    a = ap.parse_args()
    t0 = time.time()
    mod = importlib.import_module("pbt.props." + a.pid.lower())
    if a.facet:
        mod.FACETS = [f for f in mod.FACETS if f.name == a.facet]
    with build.locked():
        tree = build.tree()
        env = {"dir": tree.dir, "src": tree.src}
        for b in getattr(mod, "BUILD", ["server"]):
            env[b] = getattr(tree, b)() if ":" not in b else tree.fuzzer(b.split(":")[1])
    env["tier"] = a.tier
    env["seed"] = a.seed
    if a.replay:
        rec = json.load(open(a.replay))
        if rec.get("custom"):
            return mod.replay_custom(env, rec)
        mk = lambda: (mod.make_ctx(env) if hasattr(mod, "make_ctx") else core.Ctx(env))
        v = core.replay_history(mod, mk, rec["history"])
        if v is None:
            print("replay passes")
            return 0
        print(v.msg)
        print(v.detail)
        return 1
    quick, thorough = mod.CASES
    ncases = a.cases or (quick if a.tier == "quick" else thorough)
    cap = a.cap or (120 if a.tier == "quick" else 780)
    q = mp.Queue()
    stop = mp.Event()
    nw = a.workers
    ps = [mp.Process(target=core.worker, args=(w, nw, mod, env, a.seed, ncases, time.time() + cap, q, stop)) for w in range(nw)]
    for p in ps:
        p.start()
    fails, stats, errors = [], [], []
    left = nw
    while left:
        m = q.get()
        if m[0] == "fail":
            fails.append(m)
        elif m[0] == "error":
            errors.append(m[2])
            left -= 1
        else:
            stats.append(m[2])
            left -= 1
    for p in ps:
        p.join()
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    rc = 0
    nviol = 0
    extra = {}
    unrep = []
    fails.sort(key=lambda f: ("did not return" in f[5], len(f[4])))
    deadline = time.time() + 240
    for f in fails:
        if time.time() > deadline + 120:
            unrep.append({"facet": f[2], "message": f[5]})
            continue
        rec = core.handle_failure(mod, env, f, 40, deadline)
        if rec is None:
            unrep.append({"facet": f[2], "message": f[5]})
            continue
        rec["property"] = mod.ID
        path = out_path(mod.ID, rec)
        print("%s: %s" % (rec["history"][-1][0], rec["message"]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        nviol += 1
        rc = 1
        break
    if rc == 0 and hasattr(mod, "extra"):       # e.g. coverage-guided fuzzing
        ex = mod.extra(env, a.tier, a.seed)
        extra = ex.get("coverage", {})
        for rec in ex.get("violations", []):
            rec["property"] = mod.ID
            rec["custom"] = True
            path = out_path(mod.ID, rec)
            print(rec["message"])
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
            nviol += 1
            rc = 1
            break
    for line in getattr(mod, "KNOWN", []):
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, line))
    nt = set()
    labels, facets, samples = {}, {}, []
    ev = 0
    for s in stats:
        ev += s["evals"]
        nt |= s["nontrivial"]
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in s["facets"].items():
            facets[k] = facets.get(k, 0) + v
        samples += s["samples"]
    seen, ss = {}, []
    for s in samples:
        if seen.get(s["facet"], 0) < 2 and len(ss) < 12:
            seen[s["facet"]] = seen.get(s["facet"], 0) + 1
            ss.append(s)
    cov = dict(evaluations=ev, distinct_nontrivial=len(nt), rule=mod.RULE, samples=ss, cases_per_facet=facets,
               classes=dict(sorted(labels.items())), planned_cases=ncases, time_cap_reached=any(s["capped"] for s in stats))
    if unrep:
        cov["failures_not_reproduced"] = unrep
    cov.update(extra)
    evd = dict(property=mod.ID, tier=a.tier if a.tier in ("quick", "thorough") else "quick", seed=a.seed, level="exploration",
               coverage=cov, wall_s=round(time.time() - t0, 2), violations=nviol, assumptions=getattr(mod, "ASSUMPTIONS", []))
    if not a.facet:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (mod.ID, a.tier, a.seed, ev, len(nt), time.time() - t0,
          " (time cap reached)" if cov["time_cap_reached"] else ""))
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps(cov["classes"], indent=1))
    if unrep:
        print("not reproduced:", unrep)
    return rc


if __name__ == "__main__":
    sys.exit(main())

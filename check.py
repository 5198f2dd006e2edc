#!/usr/bin/env python
"""check.py <ID> [--tier quick|thorough] : decide one property for /repo's current tree.

1. Every function under contract (contracts/<id>.py) is read from /repo, executed symbolically and
   its obligations are discharged by the solvers: the deciding step.
2. At the same time the same contracts are evaluated on the real code with generated inputs
   (rt/<id>.py): it supplies failing inputs, and is the bounded stand-in (labelled so) for functions
   outside the verifier's subset.
Exit 0: every obligation discharged.  Exit 1: VIOLATION line.
"""
import argparse
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and not sys.executable.startswith("/opt/venv"):
    os.execv(VENV, [VENV] + sys.argv)
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"


def known():
    """known_findings.txt -> {(property, key): text}"""
    out = {}
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known:"):
                parts = line[6:].strip().split(" ", 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                out[(d["property"], d["key"])] = parts[2].strip()
    return out


def start_rt(pid, seed, budget, workers, tmp):
    jobs = []
    if not os.path.exists(os.path.join(HERE, "rt", pid.lower() + ".py")):
        return jobs
    for k in range(workers):
        out = os.path.join(tmp, f"rt{seed}_{k}.json")
        env = dict(os.environ, PYTHONHASHSEED=str((seed * 1000 + k * 7919) % 4294967295),
                   TMPDIR=tmp)
        err = open(out + ".err", "w")
        p = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-m", "rt.runner", "rt." + pid.lower(), "--seed",
             str(seed * 100 + k), "--budget", str(budget), "--out", out, "--first",
             "1" if k == 0 else "0"],
            cwd=HERE, env=env, stdout=err, stderr=err)
        jobs.append((p, out))
    return jobs


def collect(jobs, budget):
    tot = {"suites": {}, "violations": [], "errors": []}
    stop = time.time() + budget * 2 + 60
    for p, out in jobs:
        try:
            p.wait(timeout=max(1, stop - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if not os.path.exists(out):
            tot["errors"].append("worker died: " + open(out + ".err").read()[-600:])
            continue
        d = json.load(open(out))
        tot["errors"].extend(d["errors"])
        for v in d["violations"]:
            if v["key"] not in [x["key"] for x in tot["violations"]]:
                tot["violations"].append(v)
        for nm, s in d["suites"].items():
            t = tot["suites"].setdefault(nm, {"evaluations": 0, "distinct_nontrivial": 0,
                                              "errors": 0, "samples": [], "rule": s["rule"]})
            for f in ("evaluations", "distinct_nontrivial", "errors"):
                t[f] += s[f]
            t["samples"] = (t["samples"] + s["samples"])[:2]
    return tot


def prove_all(pid, tier):
    from pydv import prove
    try:
        m = importlib.import_module("contracts." + pid.lower())
    except ModuleNotFoundError as e:
        if e.name != "contracts." + pid.lower():
            raise
        return None, []
    table = {c.target: c for c in getattr(m, "ALL", m.CONTRACTS) if c.modular}
    rs = []
    for c in m.CONTRACTS:
        try:
            r = prove.verify(c, contracts=table, models=getattr(m, "MODELS", {}),
                             axioms=getattr(m, "AXIOMS", None))
        except Exception as e:  # engine limits never decide
            r = prove.Result(c)
            r.unsupported = f"engine: {type(e).__name__}: {e}"
        rs.append(r)
    quick = tier == "quick"
    prove.discharge(rs, t1=3, t2=10 if quick else 30, deadline=time.time() + (
        200 if quick else 1500))
    prove.vacuity(rs)
    return m, rs


def second_attempt(rs, tier):
    from pydv import prove
    again = [o for r in rs for o in r.obls if o.status == "unknown" and getattr(o, "smt", None)]
    if again and len(again) <= 12:
        prove.rediscover(rs, again, 25 if tier == "quick" else 90)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--no-proof", action="store_true")
    a = ap.parse_args()
    pid = a.id.upper()
    if a.replay:
        sys.exit(subprocess.call([sys.executable, "-m", "rt.runner", "rt." + pid.lower(),
                                  "--replay", os.path.abspath(a.replay)], cwd=HERE))
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = a.budget or (14 if a.tier == "quick" else 240)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix="verif_") as tmp:
        code = run(pid, a, seed, budget, tmp, rdir, t0)
    sys.exit(code)


def run(pid, a, seed, budget, tmp, rdir, t0):
    jobs = start_rt(pid, seed, budget, 3, tmp)
    t1 = time.time()
    mod, rs = (None, []) if a.no_proof else prove_all(pid, a.tier)
    proof_s = time.time() - t1
    rt = collect(jobs, budget)
    if not any((pid, v["key"]) not in known() for v in rt["violations"]):
        second_attempt(rs, a.tier)
    for r in rs:
        # invariants written for other loops decide nothing when they fail
        if r.reshaped and not r.unsupported and any(o.status != "proved" for o in r.obls):
            r.unsupported = "the loops of " + ", ".join(r.reshaped) + \
                " are not those its invariants were written for"
    bad = [o for r in rs if not (r.unsupported and r.reshaped) for o in r.obls
           if o.status != "proved"]
    vac = [(r, k) for r in rs if not r.unsupported and r.vacuous for k in r.vacuous]
    unsup = [r for r in rs if r.unsupported]
    if (bad or vac or unsup) and not any((pid, v["key"]) not in known()
                                         for v in rt["violations"]):
        more = collect(start_rt(pid, seed + 1, budget * 1.5, 6, tmp), budget)
        for k in ("violations", "errors"):
            rt[k].extend(more[k])
        for nm, s in more["suites"].items():
            if nm in rt["suites"]:
                for f in ("evaluations", "distinct_nontrivial", "errors"):
                    rt["suites"][nm][f] += s[f]
    kn = known()
    lines, viol, hit = [], [], set()
    for v in rt["violations"]:
        if (pid, v["key"]) in kn:
            hit.add(v["key"])
        else:
            viol.append(v)
    for (p, k), text in kn.items():
        if p == pid and k in hit:
            lines.append(f"KNOWN-FINDING: property={pid} {k}: {text}")
    nviol = 0
    for j, v in enumerate(viol[:5]):
        path = os.path.join(rdir, f"{pid}-{j}.json")
        v = dict(v, property=pid, failed_obligations=[o.name for o in bad][:20],
                 replay_cmd=f"cd /verif && python3 check.py {pid} --replay {path}")
        json.dump(v, open(path, "w"), indent=1, default=str)
        lines.append(f"  {v['key']}: {v['message']}"[:600])
        lines.append(f"VIOLATION property={pid} replay={path}")
        nviol += 1
    if (bad or vac) and not viol:
        path = os.path.join(rdir, f"{pid}-obligation.json")
        json.dump({"property": pid, "failed_obligations": [
            {"obligation": o.name, "status": o.status, "verifier": o.detail,
             "smt2": getattr(o, "smt", "")[:20000]} for o in bad][:10],
            "vacuous": [f"{r.contract.name}: no feasible exit of kind {k}" for r, k in vac],
            "note": "the verifier does not accept these obligations; no failing input was found"},
            open(path, "w"), indent=1, default=str)
        for o in bad[:5]:
            lines.append(f"  obligation not discharged: {o.name} ({o.status})")
        for r, k in vac:
            lines.append(f"  {r.contract.name}: exit '{k}' is unreachable")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        nviol += 1
    ev = evidence(pid, a.tier, seed, mod, rs, rt, nviol, proof_s, time.time() - t0, budget)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    for r in unsup:
        lines.insert(0, f"note: {r.contract.name} is outside the verifier's subset "
                        f"({r.unsupported}); decided by the bounded stand-in only")
    for e in rt["errors"][:3]:
        lines.insert(0, "note: harness: " + e)
    n = sum(len(r.obls) for r in rs)
    ok = sum(o.status == "proved" for r in rs for o in r.obls)
    print(f"{pid}: {len(rs) - len(unsup)} functions under contract proved or attempted, {ok}/{n} "
          f"obligations discharged in {proof_s:.1f}s; "
          f"{sum(s['evaluations'] for s in rt['suites'].values())} concrete evaluations; "
          f"{time.time() - t0:.1f}s")
    for ln in lines:
        print(ln)
    return 1 if nviol else 0


def evidence(pid, tier, seed, mod, rs, rt, nviol, proof_s, wall, budget):
    engines = {}
    for r in rs:
        for o in r.obls:
            e = o.detail.get("engine") or "none"
            x = engines.setdefault(e, {"obligations": 0, "solver_s": 0.0})
            x["obligations"] += 1
            x["solver_s"] = round(x["solver_s"] + o.detail.get("s", 0), 2)
    n = sum(len(r.obls) for r in rs)
    ok = sum(o.status == "proved" for r in rs for o in r.obls)
    fns = [{"function": r.contract.target, "contract": r.contract.name,
            "obligations": len(r.obls), "discharged": sum(o.status == "proved" for o in r.obls),
            "by": "bounded stand-in (not proved): " + r.unsupported if r.unsupported else "proof",
            "feasible_exits": getattr(r, "live", {}),
            "inlined": sorted(getattr(r.interp, "inlined", ()) or ()),
            "callee_contracts": sorted(getattr(r.interp, "used_contracts", ()) or ()),
            "external_models": sorted(getattr(r.interp, "used_models", ()) or ())} for r in rs]
    trusted = sorted({"pydv symbolic executor (/verif/pydv) and its model of Python",
                      "z3 / cvc5"} | set(getattr(mod, "TRUSTED", ()) if mod else ()) | {
        f"model of {m}" for r in rs for m in (getattr(r.interp, "used_models", ()) or ())})
    evals = sum(s["evaluations"] for s in rt["suites"].values())
    proved = n > 0
    cov = {"evaluations": evals,
           "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in rt["suites"].values()),
           "rule": "contracts evaluated on the real code with seeded random inputs; a case counts "
                   "when some part of it has more than one element, distinct by its JSON; " +
                   "; ".join(f"{k}: {s['rule']}" for k, s in rt["suites"].items() if s["rule"]),
           "samples": [{"suite": k, "case": c} for k, s in rt["suites"].items()
                       for c in s["samples"][:1]] or [fns[0] if fns else {}],
           "per_suite": {k: {f: s[f] for f in ("evaluations", "distinct_nontrivial", "errors")}
                         for k, s in rt["suites"].items()},
           "functions": fns,
           "functions_under_contract": len(rs),
           "functions_proved": sum(not r.unsupported and all(
               o.status == "proved" for o in r.obls) for r in rs),
           "bounded_stand_ins": [r.contract.target for r in rs if r.unsupported] + list(
               getattr(mod, "BOUNDED", ()) if mod else ()),
           "back_ends": engines, "proof_wall_s": round(proof_s, 2),
           "obligations": n, "discharged": ok,
           "checker_cmd": f"python3 check.py {pid} --tier {tier}",
           "trusted_base": trusted}
    return {"property": pid, "tier": tier, "seed": seed,
            "level": "proof" if proved else "exploration", "coverage": cov,
            "assumptions": list(getattr(mod, "ASSUMPTIONS", ()) if mod else ()) + [
                "integers and SQL integers are mathematical", "memory and recursion limits are "
                "not reached", "logging has no effect on results"],
            "wall_s": round(wall, 2), "violations": nviol}


if __name__ == "__main__":
    main()

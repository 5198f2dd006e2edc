"""Runs the concrete side of a check: contracts evaluated on the real code with generated inputs.

A suite module (rt/cNN.py) has SUITES, a list of Suite(name, gen, check, weight):
  gen(rng, i) -> JSON-able case        check(case) -> None, or (key, message) of a violation
A case is replayed with  check.py <ID> --replay FILE.
"""
from __future__ import annotations

import argparse
import importlib
import json
import logging
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)


CASE_CPU_SECONDS = 20  # cases take milliseconds


class Hang(BaseException):
    pass


def _hang(*_):
    raise Hang()


def guarded(check, case):
    """check(case); a case that does not come to an end is a violation"""
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_SECONDS)
    try:
        return check(case)
    except Hang:
        return "no-end", f"no result after {CASE_CPU_SECONDS} s of processor time"
    except MemoryError:
        return "no-end", "memory exhausted"
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class Suite:
    def __init__(self, name, gen, check, weight=1.0, fixed=(), rule=""):
        self.name, self.gen, self.check, self.weight = name, gen, check, weight
        self.fixed = list(fixed)
        self.rule = rule


def nontrivial(case):
    """a case with more than one element somewhere"""
    if isinstance(case, dict):
        return len(case) > 1 or any(nontrivial(x) for x in case.values())
    if isinstance(case, (list, tuple)):
        return len(case) > 1 or any(nontrivial(x) for x in case)
    return False


def run_suite(s, rng, stop, out, limit=None, only_fixed=False):
    seen, errs, n = set(), 0, 0
    samples = []
    viols = []
    keys = set()

    def one(case):
        nonlocal errs, n
        n += 1
        blob = json.dumps(case, sort_keys=True, default=str)
        if nontrivial(case):
            seen.add(hash(blob))
        if len(samples) < 2 and n % 7 == 1:
            samples.append(case)
        try:
            r = guarded(s.check, json.loads(json.dumps(case, default=str)))
        except Exception:  # a fault of the harness, not a verdict
            errs += 1
            if errs <= 2:
                out.setdefault("errors", []).append(
                    f"{s.name}: {traceback.format_exc(limit=-3)[-700:]}")
            return
        if r is not None:
            key, msg = r
            if key not in keys:
                keys.add(key)
                viols.append({"key": key, "suite": s.name, "message": msg, "case": case})
    for case in s.fixed:
        one(case)
    i = 0
    if not only_fixed:
        while time.time() < stop and (limit is None or i < limit) and len(viols) < 5 \
                and "no-end" not in keys:
            if errs >= 30 and errs == n:
                break  # the harness cannot reach the code
            one(s.gen(rng, i))
            i += 1
    out["suites"][s.name] = {"evaluations": n, "distinct_nontrivial": len(seen), "errors": errs,
                             "samples": samples, "rule": s.rule}
    out["violations"].extend(viols)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("module")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--first", type=int, default=1)
    a = ap.parse_args()
    m = importlib.import_module(a.module)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    if a.replay:
        rec = json.load(open(a.replay))
        s = next(x for x in m.SUITES if x.name == rec["suite"])
        r = guarded(s.check, rec["case"])
        print("VIOLATES" if r else "HOLDS", r or "")
        sys.exit(1 if r else 0)
    out = {"suites": {}, "violations": [], "errors": []}
    total = sum(s.weight for s in m.SUITES)
    for s in m.SUITES:
        rng = random.Random(f"{a.seed}/{s.name}")
        stop = time.time() + a.budget * s.weight / total
        if not a.first:
            s.fixed = []
        run_suite(s, rng, stop, out)
    with open(a.out, "w") as f:
        json.dump(out, f, default=str)


if __name__ == "__main__":
    main()

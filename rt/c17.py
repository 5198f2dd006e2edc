"""C17: the three commands run as a user runs them, against the same work done through the classes,
and under injected failures."""
import contextlib
import copy
import io
import os
import shutil
import sys

import yaml

from rt import e2e
from rt.c03 import gen_target
from rt.runner import Suite

# texts and values YAML could read back as something else
ODD = ["yes", "null", "1e3", "12:30", "0x1F", "-", "=", "", " a ", "#x", "a: b", "'", '"', "\u0085",
       "é", "\U0001f600", "line\nbreak", "tab\t", "2020-01-01", "!x", "&a", "*b", "%", "@", "`",
       "~", "0o7", "1_000", ".inf", "a" * 200 + " b"]
FAULTS = ["no-config", "bad-yaml", "bad-config", "no-planner", "no-plan", "bad-plan", "plan-text",
          "plan-extra", "unplannable", "no-source", "unwritable", "no-destination", "plan-latin",
          "no-directory"]


def gen(rng, i):
    n = rng.choice([1, 2, 3])
    tables = e2e.gen_schema(rng, n, acyclic=True, extra_cols=1, pkinds=["id"])
    rows = e2e.gen_rows(rng, tables, 5)
    names = list(tables)
    targets = {}
    for t in rng.sample(names, rng.choice([1, 1, min(2, n)])):
        g = gen_target(rng, tables[t])
        g.pop("sql", None), g.pop("percent", None), g.pop("amount", None)
        strs = [c[0] for c in tables[t]["cols"] if c[1] == "str"]
        if strs and rng.random() < .7:
            g.setdefault("in", {})[rng.choice(strs)] = rng.sample(ODD, rng.choice([1, 2, 4]))
        if not g:
            g = {"all": True}
        targets["test." + t] = g
    act = rng.choice(["plan", "sample", "sample", "subset", "subset"])
    have = [t for t in names if rng.random() < .8]
    closed = [t for t in have if all(d in have for _, d, _ in tables[t]["fks"])]
    return {"tables": tables, "rows": rows, "targets": targets, "action": act,
            "dest": closed, "dest_rows": e2e.gen_rows(rng, {t: tables[t] for t in closed}, 2,
                                                      base=50) if closed else {},
            "create": rng.random() < .6, "truncate": rng.random() < .5,
            "out": rng.choice(["database", "database", "directory"]),
            "to": rng.choice(["file", "file", "stdout"]),
            "stdin": rng.random() < .3, "verbose": rng.choice([0, 0, 1, 2, 3]),
            "split": rng.random() < .4, "default": rng.random() < .2,
            "infer": rng.choice(["none", "schema"]),
            "fault": rng.choice(FAULTS) if rng.random() < .4 else None}


def norm(x):
    """without the order of mappings"""
    if isinstance(x, dict):
        return [[k, norm(x[k])] for k in sorted(x)]
    return [norm(y) for y in x] if isinstance(x, (list, tuple)) else x


def config(case, d, dest):
    out = ({"mode": "directory", "directory": os.path.join(d, dest)} if case["out"] == "directory"
           else {"mode": "database", "dialect": "sqlite",
                 "sqlite_databases": {"test": os.path.join(d, dest + ".db")}})
    return {"source": {"dialect": "sqlite", "sqlite_databases": {
                "test": os.path.join(d, "source.db")}},
            "planner": {"select": ["test.*"], "targets": copy.deepcopy(case["targets"]),
                        "infer_foreign_keys": case["infer"]},
            "sampler": {"output": out}}


def prepare(case, d, dest):
    if case["out"] == "directory":
        os.mkdir(os.path.join(d, dest))
        with open(os.path.join(d, dest, "test.zzz.json"), "w") as f:
            f.write("kept\n")
    else:
        e2e.create_db(os.path.join(d, dest + ".db"),
                      {t: case["tables"][t] for t in case["dest"]}, case["dest_rows"] or None)


def state(case, d, dest):
    p = os.path.join(d, dest)
    if case["out"] == "directory":
        if not os.path.isdir(p):
            return None
        return {f: open(os.path.join(p, f)).read() for f in sorted(os.listdir(p))}
    return {t: [r["cols"], sorted(map(repr, r["rows"]))]
            for t, r in e2e.read_db(p + ".db").items()}


@contextlib.contextmanager
def command(argv, stdin, cwd):
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd()
    out = io.StringIO()
    sys.argv, sys.stdin = ["subsetter"] + argv, io.StringIO(stdin)
    sys.stdout, sys.stderr = out, io.StringIO()
    os.chdir(cwd)
    try:
        yield out
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old[:4]
        os.chdir(old[4])


def run(argv, stdin, cwd):
    """-> (exit status, standard output)"""
    import subsetter.__main__ as M
    from rt.runner import Hang
    with command(argv, stdin, cwd) as out:
        try:
            M.main()
            code = 0
        except SystemExit as e:
            code = e.code if e.code is not None else 0
        except Hang:
            raise
        except Exception as e:
            code = f"{type(e).__name__} escapes"
    return code, out.getvalue()


def direct(case, d, dest):
    """the same work through the classes: (plan JSON, error?, state of the destination)"""
    from subsetter.common import DatabaseConfig
    from subsetter.config_model import PlannerConfig, SamplerConfig
    from subsetter.planner import Planner
    from subsetter.sampler import Sampler
    cfg = config(case, d, dest)
    src = DatabaseConfig.model_validate(cfg["source"])
    p = Planner(src, PlannerConfig.model_validate(cfg["planner"]))
    s = None
    try:
        plan = p.plan()
        doc = plan.model_dump(by_alias=True)
        if case["action"] == "plan":
            return doc, plan, False, None
        s = Sampler(src, SamplerConfig.model_validate(cfg["sampler"]))
        prepare(case, d, dest)
        err = False
        try:
            s.sample(plan, truncate=case["truncate"], create=case["create"])
        except Exception:
            err = True
        return doc, plan, err, state(case, d, dest)
    finally:
        e2e.dispose(p, *([s] if s else []))


def check(case):
    from subsetter.plan_model import SubsetPlan
    d = e2e.scratch()
    act, fault = case["action"], case["fault"]
    try:
        e2e.create_db(os.path.join(d, "source.db"), case["tables"], case["rows"])
        prepare(case, d, "out")
        want_doc, want_plan, want_err, want_state = direct(case, d, "expected")
        before = state(case, d, "out")
        cfg = config(case, d, "out")
        planfile = os.path.join(d, "my plan.yaml")
        plantext = yaml.safe_dump(want_plan.model_dump(mode="json", by_alias=True), sort_keys=False)
        failing = True
        if fault == "no-planner" and act != "sample":
            del cfg["planner"]
        elif fault == "bad-config":
            cfg["planner"]["nonsense"] = 1
        elif fault == "unplannable" and act != "sample":
            cfg["planner"]["targets"]["test.nowhere"] = {"all": True}
        elif fault == "no-source":
            cfg["source"]["sqlite_databases"]["test"] = os.path.join(d, "none", "x.db")
        elif fault == "no-destination" and act != "plan" and case["out"] == "database":
            cfg["sampler"]["output"]["sqlite_databases"]["test"] = os.path.join(d, "none", "x.db")
        elif fault == "no-directory" and act != "plan" and case["out"] == "directory":
            cfg["sampler"]["output"]["directory"] = os.path.join(d, "out", "test.zzz.json")
        elif fault == "bad-plan" and act == "sample":
            plantext = plantext + "\n]: {"
        elif fault == "plan-text" and act == "sample":
            plantext = "hello"
        elif fault == "plan-extra" and act == "sample":
            x = yaml.safe_load(plantext)
            x["queries"] = [1]
            plantext = yaml.safe_dump(x, sort_keys=False)
        elif fault in ("no-config", "bad-yaml", "plan-latin", "no-plan", "unwritable"):
            pass
        else:
            failing = False
        files = [cfg]
        if case["split"] and len(cfg) > 1:
            files = [{k: cfg[k] for k in list(cfg)[:1]}, {k: cfg[k] for k in list(cfg)[1:]}]
        argv, names = ["-v"] * case["verbose"], []
        for k, f in enumerate(files):
            nm = "subsetter.yaml" if case["default"] and len(files) == 1 else f"c{k}.yaml"
            with open(os.path.join(d, nm), "w") as fh:
                yaml.safe_dump(f, fh, sort_keys=False)
                if fault == "bad-yaml":
                    fh.write("\n]: {")
            names.append(nm)
            if nm != "subsetter.yaml":
                argv += ["-c", nm]
        if fault == "no-config":
            os.unlink(os.path.join(d, names[0]))
        stdin, old = "", "an earlier plan\n"
        argv.append(act)
        stdout_plan = act == "plan" and case["to"] == "stdout"
        if act == "plan" and not stdout_plan:
            with open(planfile, "w") as fh:
                fh.write(old)
            out = planfile
            if fault == "unwritable":
                out = os.path.join(d, "none", "plan.yaml")
            argv += ["-o", out] if case["verbose"] % 2 else ["--output", out]
        elif fault == "unwritable":
            failing = False
        if act == "sample":
            if fault == "no-plan":
                argv += ["--plan", os.path.join(d, "missing.yaml")]
            elif case["stdin"]:
                stdin = plantext
                argv += ["-p", "-"]
                failing = failing and fault != "plan-latin"
            else:
                nm = "plan.yaml" if case["default"] else "my plan.yaml"
                with open(os.path.join(d, nm), "wb") as fh:
                    fh.write(b"\xff\xfe# \xe9\n" if fault == "plan-latin" else plantext.encode())
                if not case["default"]:
                    argv += ["-p", nm]
        elif fault in ("no-plan", "plan-latin"):
            failing = False
        if act != "plan":
            argv += ["--truncate"] * case["truncate"] + ["--create"] * case["create"]
        code, out = run(argv, stdin, d)
        after = state(case, d, "out")
        what = f"subsetter {' '.join(argv)}" + (f" with {fault}" if failing else "")
        if failing:
            if code in (0, None):
                return "failure-unreported", f"{what}: ends with status 0"
            if not isinstance(code, (int, str)) or " escapes" in str(code):
                return "failure-escapes", f"{what}: {code}"
            if after != before:
                return "changed-on-failure", f"{what}: destination {before} became {after}"
            if act == "plan" and not stdout_plan and open(planfile).read() != old:
                return "plan-lost", f"{what}: the earlier plan file was changed"
            return None
        if act == "plan":
            text = out if stdout_plan else open(planfile, encoding="utf-8").read()
            if code != 0:
                return "plan-fails", f"{what}: status {code}"
            if not stdout_plan and out:
                return "plan-stdout", f"{what}: also writes {out[:80]!r}"
            try:
                got = SubsetPlan.model_validate(yaml.safe_load(text))
            except Exception as e:
                return "plan-unreadable", f"{what}: {type(e).__name__}: {str(e)[:200]}: {text[:300]}"
            if repr(norm(got.model_dump(by_alias=True))) != repr(norm(want_doc)):
                return "plan-differs", (f"{what}: read back {got.model_dump(by_alias=True)}, "
                                        f"planned {want_doc}")
            if after != before:
                return "plan-samples", f"{what}: destination {before} became {after}"
            return None
        if (code != 0) != want_err:
            return "status", f"{what}: status {code}, sampling directly " + (
                "fails" if want_err else "succeeds")
        if after != want_state:
            return "sampled", f"{what}: destination {after}, expected {want_state}"
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


SUITES = [Suite("commands", gen, check, 1,
                rule="the real main() with its argument parser, in a scratch directory, with and "
                     "without an injected failure")]

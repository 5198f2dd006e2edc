"""C17: what each command does, and that failures are reported."""
import builtins
import contextlib
import logging
import sys

import yaml

from contracts.lib import *
from pydv.state import PyRaise
from subsetter import __main__ as M
from subsetter import plan_model as PM
from subsetter import planner as PL
from subsetter import sampler as SA

TSOURCE = TEnt("SourceConfig", None)
TPLCONF = TEnt("PlannerSection", None)
TSACONF = TEnt("SamplerSection", None)
TCONFIG = TEnt("MergedConfig", None, fields={"source": TSOURCE, "planner": TOpt(TPLCONF),
                                             "sampler": TOpt(TSACONF)})
TPLAN = TEnt("SubsetPlan", None)
TDUMP = TEnt("PlanDocument", None)
TFILE = TEnt("OpenFile", None, fields={"path": STR, "mode": STR})
TSTD = TEnt("StandardStream", None)
TTEXT = TEnt("YamlText", None)
TDOC = TEnt("LoadedDocument", None)
TPLANNER = TEnt("PlannerObject", None)
TSAMPLER = TEnt("SamplerObject", None)
COMMON = {"config": TOpt(TSeq(STR)), "verbose": INT}
SAMPLING = {"truncate": BOOL, "create": BOOL}
COMMANDS = {
    "plan": TEnt("PlanCommand", None, fields={**COMMON, "action": TConst("plan"), "plan_output": TOpt(STR)}),
    "sample": TEnt("SampleCommand", None, fields={**COMMON, **SAMPLING, "action": TConst("sample"),
                                                  "plan": STR}),
    "subset": TEnt("SubsetCommand", None, fields={**COMMON, **SAMPLING, "action": TConst("subset")})}
COMMANDS["other"] = TEnt("OtherCommand", None, fields={**COMMON, "action": TConst("other")})
STDIN, STDOUT = [Sym(TSTD, z3.Const(n, TSTD.sort)) for n in ("stdin", "stdout")]
CONF = Sym(TCONFIG, z3.Const("the_configuration", TCONFIG.sort))
PLANNED = Sym(TPLAN, z3.Const("the_plan_made", TPLAN.sort))
DUMPED = z3.Function("document_of", TPLAN.sort, TDUMP.sort)
READ = z3.Function("document_in_file", V.STR_S, TDOC.sort)
READ_STDIN = Sym(TDOC, z3.Const("document_on_stdin", TDOC.sort))
PARSED = z3.Function("plan_in_document", TDOC.sort, TPLAN.sort)


# ------------------------------------------------------------ what happened so far
def world(it):
    return it.content(it.args._w).fields


def note(it, **kw):
    it.set_content(it.args._w, VInst(object, dict(world(it), **kw)))


def may_fail(it, what, *classes):
    for c in classes:
        if it.decide(it.fresh(f"{what}_{c.__name__}", z3.BoolSort()), prune=False):
            note(it, failed=True)
            raise PyRaise(Exc(c, (f"{what} failed",)))


def counted(it, n):
    note(it, **{n: world(it)[n] + 1})


def command_line(it, a, kw):
    return it.args._cmd


def get_config(it, a):
    """contract proved under C15: the validated merged configuration, or an error status"""
    it.oblige("the configuration files named on the command line", eq(it, a.args, it.args._cmd))
    if it.decide(it.fresh("configuration_invalid", z3.BoolSort()), prune=False):
        note(it, failed=True)
        raise PyRaise(Exc(SystemExit, (1,)))
    may_fail(it, "configuration", Exception)
    counted(it, "configs")
    return CONF


CONFIG = Contract("subsetter.__main__:_get_config", apply=get_config, modular=True, trusted=True)


def section(it, name):
    return it.getattr(CONF, name)


def is_section(it, v, name):
    s = section(it, name)
    if isinstance(v, SymOpt):
        return eq(it, v, s)
    if v is None:
        return s.isnone
    return And(Not(s.isnone), eq(it, v, s.val))


def make_planner(it, a, kw):
    source, config = named_args(a, kw, "source", "config")
    it.oblige("planned on the configured source", eq(it, source, it.getattr(CONF, "source")))
    it.oblige("planned with the planner section", And(
        Not(section(it, "planner").isnone), is_section(it, config, "planner")))
    may_fail(it, "planner", OSError, ValueError, Exception)
    return it.make(TPLANNER, "planner")


def make_plan(it, a, kw):
    if len(a) != 1 or kw:
        raise Unsupported("Planner.plan")
    may_fail(it, "planning", OSError, ValueError, Exception)
    note(it, planned=True)
    return PLANNED


def make_sampler(it, a, kw):
    source, config = named_args(a, kw, "source", "config")
    it.oblige("sampled from the configured source", eq(it, source, it.getattr(CONF, "source")))
    it.oblige("sampled with the sampler section", is_section(it, config, "sampler"))
    may_fail(it, "sampler", OSError, ValueError, Exception)
    return it.make(TSAMPLER, "sampler")


def named_args(a, kw, *names):
    out = list(a)
    for n in names[len(a):]:
        if n not in kw:
            raise Unsupported(f"argument {n}")
        out.append(kw.pop(n))
    if kw or len(out) != len(names):
        raise Unsupported("arguments")
    return out


def truth(it, v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    return V.term(v, BOOL)


def do_sample(it, a, kw):
    if len(a) != 2 or set(kw) - {"truncate", "create"}:
        raise Unsupported("Sampler.sample")
    cmd = it.args._action
    if cmd == "sample":
        want = PARSED(z3.If(it.getattr(it.args._cmd, "plan").t == V.str_lit("-"), READ_STDIN.t,
                            READ(it.getattr(it.args._cmd, "plan").t)))
    else:
        want = PLANNED.t
    it.oblige("only a command that samples does", z3.BoolVal(cmd in ("sample", "subset")))
    if cmd in ("sample", "subset"):
        it.oblige("the plan that was " + ("read" if cmd == "sample" else "made"),
                  V.term(a[1], TPLAN) == want)
        for f in ("truncate", "create"):
            it.oblige(f"{f} exactly when asked", truth(it, kw.get(f, False)) == it.getattr(
                it.args._cmd, f).t)
    counted(it, "samples")
    may_fail(it, "sampling", OSError, ValueError, Exception)


TPLANNER.methods["plan"] = make_plan
TSAMPLER.methods["sample"] = do_sample


# ------------------------------------------------------------ files
def open_file(it, a, kw):
    a = list(a)
    path = a.pop(0) if a else kw.pop("file")
    mode = a.pop(0) if a else kw.pop("mode", "r")
    if a or set(kw) - {"encoding"} or mode not in ("r", "w", "rt", "wt"):
        raise Unsupported("open")
    cmd = it.args._action
    if mode[0] == "w":
        it.oblige("written only once there is a new plan", z3.BoolVal(bool(world(it)["planned"])))
        it.oblige("the named output file", z3.BoolVal(cmd == "plan") if cmd != "plan" else eq(
            it, path, it.getattr(it.args._cmd, "plan_output")))
    elif cmd != "sample":
        raise Unsupported("reads a file")
    may_fail(it, "open", OSError)
    f = it.make(TFILE, "file")
    if isinstance(path, SymOpt):
        it.oblige("a file name is given", Not(path.isnone))
        path = path.val
    it._addfacts([eq(it, it.getattr(f, "path"), path), eq(it, it.getattr(f, "mode"), mode[0])])
    note(it, open=world(it)["open"] + 1)
    return f


def close_file(it, a, kw):
    note(it, open=world(it)["open"] - 1)


TFILE.methods.update({"__enter__": lambda it, a, kw: a[0], "__exit__": close_file,
                      "close": close_file})


def null_context(it, cls, args, kw):
    return it.alloc(VInst(contextlib.nullcontext, {
        "enter_result": args[0] if args else kw.get("enter_result")}))


def load(it, a, kw):
    f = a[0]
    if len(a) != 1 or kw or not isinstance(f, Sym):
        raise Unsupported("yaml.safe_load")
    may_fail(it, "reading", ValueError, yaml.YAMLError)
    if f.ty is TSTD:
        it.oblige("read from standard input", eq(it, f, STDIN))
        return READ_STDIN
    return Sym(TDOC, READ(it.getattr(f, "path").t))


def parse_plan(it, a, kw):
    if len(a) != 2 or kw or not isinstance(a[1], Sym) or a[1].ty is not TDOC:
        raise Unsupported("SubsetPlan.model_validate")
    may_fail(it, "validating the plan", ValueError)
    return Sym(TPLAN, PARSED(a[1].t))


def model_dump(it, a, kw):
    if len(a) != 1 or set(kw) - {"exclude_unset", "by_alias"} or kw.get("by_alias") is not True:
        raise Unsupported("model_dump")
    return Sym(TDUMP, DUMPED(a[0].t))


TPLAN.methods["model_dump"] = model_dump
PRETTY = {"default_flow_style", "width", "sort_keys", "indent"}


def dump(it, a, kw):
    a = list(a)
    data = a.pop(0) if a else kw.pop("data")
    stream = a.pop(0) if a else kw.pop("stream", None)
    if a or set(kw) - PRETTY or not isinstance(data, Sym) or data.ty is not TDUMP:
        raise Unsupported("yaml.dump")
    if stream is None:
        t = it.make(TTEXT, "text")
        it._addfacts([text_of(t.t) == data.t])
        return t
    written(it, stream, data.t)


text_of = z3.Function("document_of_text", TTEXT.sort, TDUMP.sort)


def written(it, stream, doc):
    cmd = it.args._cmd
    if it.args._action != "plan":
        it.oblige("only the plan command writes a plan", V.FALSE)
    it.oblige("the plan that was made", doc == DUMPED(PLANNED.t))
    o = it.getattr(cmd, "plan_output")
    named = And(Not(o.isnone), Not(o.val.t == V.str_lit("")))
    if isinstance(stream, Sym) and stream.ty is TSTD:
        it.oblige("to standard output only when no file is named", And(
            Not(named), eq(it, stream, STDOUT)))
    elif isinstance(stream, Sym) and stream.ty is TFILE:
        it.oblige("to the named file", And(named, it.getattr(stream, "path").t == o.val.t,
                                           it.getattr(stream, "mode").t == V.str_lit("w")))
    else:
        raise Unsupported("stream of yaml.dump")
    may_fail(it, "writing", OSError, ValueError)
    counted(it, "writes")


def write_text(it, a, kw):
    if len(a) != 2 or kw or not isinstance(a[1], Sym) or a[1].ty is not TTEXT:
        raise Unsupported("write")
    written(it, a[0], text_of(a[1].t))


TFILE.methods["write"] = write_text
TSTD.methods["write"] = write_text


def do_exit(it, a, kw):
    raise PyRaise(Exc(SystemExit, tuple(a)))


# ------------------------------------------------------------ main
def setup(action):
    def f(it):
        cmd = it.make(COMMANDS[action], "args")
        return {"_action": action, "_cmd": cmd, "_w": it.alloc(VInst(object, {
            "failed": False, "samples": 0, "writes": 0, "planned": False, "configs": 0,
            "open": 0}))}
    return f


def post(it, a, r):
    w = world(it)
    B = z3.BoolVal
    act = a._action
    return {
        "succeeds only when nothing failed": B(not w["failed"]),
        "the configuration was read once": B(w["configs"] == 1),
        "the plan was written exactly once": B(w["writes"] == (1 if act == "plan" else 0)),
        "sampled exactly once": B(w["samples"] == (1 if act in ("sample", "subset") else 0)),
        "files are closed": B(w["open"] == 0)}


def failed(it, a, e):
    w = world(it)
    code = e.args[0] if e.args else None
    if isinstance(code, Sym):
        nz = Not(V.term(code, INT) == 0)
    elif isinstance(code, SymOpt):
        raise Unsupported("exit status")
    else:
        nz = z3.BoolVal(code not in (None, 0, False))
    missing = section(it, "planner").isnone
    d = {"a failure gives a non-zero status": nz,
         "only a failure ends the run early": Or(
             z3.BoolVal(w["failed"] or a._action == "other"),
             And(missing, z3.BoolVal(a._action in ("plan", "subset"))))}
    d["at most one attempt"] = z3.BoolVal(w["samples"] <= 1 and w["writes"] <= 1)
    return d


MODELS = {
    M._parse_args: command_line, sys.exit: do_exit, builtins.open: open_file,
    ("attr", id(sys), "stdin"): STDIN, ("attr", id(sys), "stdout"): STDOUT,
    (contextlib.nullcontext, "__enter__"): lambda it, a, kw: it.content(a[0]).fields[
        "enter_result"],
    (contextlib.nullcontext, "__exit__"): lambda it, a, kw: None,
    yaml.safe_load: load, yaml.dump: dump, PM.SubsetPlan.model_validate.__func__: parse_plan,
    M.logging_redirect_tqdm: lambda it, a, kw: null_context(it, None, [], {}),
    # (without tqdm the same object, hence after it)
    contextlib.nullcontext: lambda it, a, kw: null_context(it, None, a, kw),
    PL.Planner: make_planner, SA.Sampler: make_sampler,
    logging.basicConfig: lambda it, a, kw: None,
    logging.getLogger: lambda it, a, kw: it.make(TLOGGER, "logger"),
}
TLOGGER = TEnt("Logger", None, methods={"setLevel": lambda it, a, kw: None})

# ------------------------------------------------------------ a sampler
TSENG17 = TEnt("SourceEngine17", None)
ENGINE17 = Sym(TSENG17, z3.Const("the_source", TSENG17.sort))


def source_engine(it, a, kw):
    it.oblige("the engine of the source", z3.BoolVal(
        len(a) == 1 and kw == {"env_prefix": "SUBSET_SOURCE_"} or
        len(a) == 2 and a[1] == "SUBSET_SOURCE_" and not kw))
    return ENGINE17


TSRC17 = TEnt("SourceConfig17", None, methods={"database_engine": source_engine})


def none_yet(it, a, f):
    c = it._cont(field(it, a.self, f))
    return V.TRUE if isinstance(c, VSet) and c.base is None and not c.ops else z3.BoolVal(
        isinstance(c, VDict) and c.base is None and not c.ops)


SAMPLER_INIT = Contract(
    "subsetter.sampler:Sampler.__init__", setup=lambda it: {
        "self": it.alloc(VInst(SA.Sampler, {})), "source": it.make(TSRC17, "source"),
        "config": it.make(TSACONF, "config")},
    ensures=lambda it, a, r: {
        "connected to the source": eq(it, field(it, a.self, "source_engine"), ENGINE17),
        "the configuration given": eq(it, field(it, a.self, "config"), a.config),
        **{f"no {f.replace('_', ' ')} known yet": none_yet(it, a, f) for f in (
            "compact_columns", "passthrough_tables", "cached_table_sizes")},
        "no temporary tables yet": z3.BoolVal(empty_dict(it, field(it, field(
            it, a.self, "temp_tables"), "name_counts")))})


# ------------------------------------------------------------ the options of the commands
class Options:
    """what was declared, by parser"""

    def __init__(self):
        self.of, self.subs, self.answered = {}, {}, []


def new_parser(it, opts):
    p = Sym(TPARSER, z3.Const(f"parser_{len(opts.of)}", TPARSER.sort))
    opts.of[p.t.decl().name()] = {}
    return p


def the_parser(it, a, kw):
    if a or set(kw) - {"description", "prog", "epilog"}:
        raise Unsupported("ArgumentParser")
    it.args._options.__init__()
    return new_parser(it, it.args._options)


def declare(it, a, kw):
    """add_argument: one option, understood by what it stores"""
    opts, me = it.args._options, a[0].t.decl().name()
    names = a[1:]
    if not names or not all(isinstance(x, str) for x in names):
        raise Unsupported("add_argument")
    long = [x for x in names if x.startswith("--")]
    dest = kw.get("dest") or (long or names)[0].lstrip("-").replace("-", "_")
    act = kw.get("action", "store")
    if set(kw) - {"action", "default", "const", "required", "help", "dest", "metavar"} or \
            kw.get("required") or not names[0].startswith("-"):
        raise Unsupported(f"option {names}")
    d = kw.get("default")
    if act == "store_true":
        sem = ("flag", bool(kw.get("default", False)), True)
    elif act == "store_const":
        sem = ("flag", d, kw.get("const"))
    elif act in ("store", "append", "count"):
        sem = (act, d)
    else:
        raise Unsupported(f"option {names}")
    if dest in opts.of[me] or any(n in o[0] for o in opts.of[me].values() for n in names):
        raise PyRaise(Exc(ValueError, ("option declared twice",)))
    opts.of[me][dest] = (tuple(names), sem)


def declare_commands(it, a, kw):
    opts = it.args._options
    if a[0].t.decl().name() != "parser_0" or opts.subs:
        raise Unsupported("add_subparsers")
    opts.commands = (kw.get("dest"), kw.get("required"))
    return Sym(TSUBS, z3.Const("commands", TSUBS.sort))


def declare_command(it, a, kw):
    opts, name = it.args._options, a[1]
    p = new_parser(it, opts)
    opts.subs[name] = p.t.decl().name()
    return p


def answer(it, a, kw):
    opts = it.args._options
    if len(a) != 1 or kw or a[0].t.decl().name() != "parser_0":
        raise Unsupported("parse_args")
    return ANSWER


TPARSER = TEnt("ArgumentParser", None, methods={
    "add_argument": declare, "add_subparsers": declare_commands, "parse_args": answer})
TSUBS = TEnt("SubParsers", None, methods={"add_parser": declare_command})
TANSWER = TEnt("ParsedArgs", None)
ANSWER = Sym(TANSWER, z3.Const("the_answer", TANSWER.sort))
FLAG = {"truncate": ("--truncate",), "create": ("--create",)}


def options_post(it, a, r):
    o = a._options
    top, subs = o.of["parser_0"], {k: o.of[p] for k, p in o.subs.items()}
    option = lambda table, dest, names, sem: z3.BoolVal(dest in table and set(names) <= set(
        table[dest][0]) and table[dest][1] == sem)
    flag_ok = lambda table, f: z3.BoolVal(f in table and set(FLAG[f]) <= set(
        table[f][0]) and table[f][1][0] == "flag" and not table[f][1][1] and bool(table[f][1][2]))
    d = {"the answer of the parser": z3.BoolVal(r is ANSWER),
         "the three commands, one of them required": z3.BoolVal(
             set(subs) >= {"plan", "sample", "subset"} and o.commands == ("action", True)),
         "configuration files, in order": Or(*(option(top, "config", ("-c", "--config"), (
             "append", x)) for x in (None, [], ()))),
         "verbosity": option(top, "verbose", ("-v", "--verbose"), ("count", 0))}
    plan, sample, subset = (subs.get(k, {}) for k in ("plan", "sample", "subset"))
    d["plan writes to standard output unless a file is named"] = option(
        plan, "plan_output", ("-o", "--output"), ("store", None))
    d["sample reads plan.yaml unless a file is named"] = option(
        sample, "plan", ("-p", "--plan"), ("store", "plan.yaml"))
    for n, t in (("sample", sample), ("subset", subset)):
        for f in FLAG:
            d[f"{n}: {f} only when asked"] = flag_ok(t, f)
    return d


OPTIONS = Contract(
    "subsetter.__main__:_parse_args", setup=lambda it: {"_options": Options()},
    ensures=options_post,
    models={M.ArgumentParser: the_parser})

CONTRACTS = [Contract(
    "subsetter.__main__:main" + "#" + act, name=f"main[{act}]", setup=setup(act), ensures=post,
    raises={SystemExit: failed}, fork=("",),
    covers=("return", "SystemExit") if act != "other" else ("SystemExit",))
    for act in COMMANDS] + [SAMPLER_INIT, OPTIONS]
ALL = [CONFIG]
AXIOMS = []
ASSUMPTIONS = [
    "the command line is parsed as its options say (rt/c17 runs the real argument parser)",
    "_get_config by its contract proved under C15",
    "Planner.plan and Sampler.sample do what C01 to C16 say, or raise an exception",
    "a written plan read back is the same plan: SubsetPlan.model_validate(yaml.safe_load(yaml."
    "dump(plan.model_dump(by_alias=True)))) == plan (rt/c17 checks it on generated plans)",
    "layout options of yaml.dump do not change the document",
    "KeyboardInterrupt and other exceptions that are no Exception are not considered",
]
TRUSTED = ["argparse", "yaml.safe_load, yaml.dump", "SubsetPlan.model_validate, model_dump",
           "open and the standard streams", "logging_redirect_tqdm, logging configuration"]

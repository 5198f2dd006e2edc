"""C10: every sampled row is written once, column by column."""
from contracts.copying import *
from subsetter import plan_model as PM

# ------------------------------------------------------------ the files of a directory
TQUERY10 = TEnt("PlanQuery10", None)
TPLAN10 = TEnt("Plan10", PM.SubsetPlan, fields={"queries": TDict(STR, TQUERY10),
                                                "passthrough": TSeq(STR)})
TCONF10 = TEnt("DirConfig10", SA.DirectoryOutputConfig, fields={"directory": STR})
TMETA10 = TEnt("SourceMeta10", None)

DIR_INIT = Contract(
    "subsetter.sampler:DirectoryOutput.__init__", setup=lambda it: {
        "self": it.alloc(VInst(SA.DirectoryOutput, {})), "config": it.make(TCONF10, "config"),
        "plan": it.make(TPLAN10, "plan"), "source_meta": it.make(TMETA10, "meta")},
    ensures=lambda it, a, r: {
        "into the configured directory": eq(it, field(it, a.self, "directory"), it.getattr(
            a.config, "directory")),
        "the tables of plan and source": And(eq(it, field(it, a.self, "plan"), a.plan), eq(
            it, field(it, a.self, "source_meta"), a.source_meta))})


def order_post(it, a, r):
    qs = it.getattr(field(it, a.self, "plan"), "queries")
    return {
        "every table of the plan": forall_ty(it, STR, lambda n: Implies(mem(it, qs, n), mem(
            it, r, n))),
        "and no other": idx(it, lambda j: mem(it, qs, at(it, r, j)), r),
        "each once": idx(it, lambda j: idx(it, lambda l: Implies(j < l, Not(eq(
            it, at(it, r, j), at(it, r, l)))), r), r)}


DIR_ORDER = Contract(
    "subsetter.sampler:DirectoryOutput.insert_order", setup=lambda it: {
        "self": it.alloc(VInst(SA.DirectoryOutput, {"plan": it.make(TPLAN10, "plan")}))},
    ensures=order_post)

MODELS = OUT_MODELS
AXIOMS = [name_axioms]
CONTRACTS = [COPY_RESULTS(False), directory(True), database(multiplying=1), DIR_INIT, DIR_ORDER]
ALL = [PARSE]
ASSUMPTIONS = OUT_ASSUMPTIONS + COPY_ASSUMPTIONS + [
    "filter chains by their contracts proved under C06",
    "at least one copy per row (multiplicity is at least 1: C07, C15)",
]
TRUSTED = OUT_TRUSTED + COPY_TRUSTED

"""The checks, one function per property."""
import build, core
import fam_lang as L
import fam_engine as E
import fam_misc as M
import fam_fn as B
import fam_dsl as D
import fam_thr as T
import fam_diag as G
import fam_tree as N
import fam_keep as K

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def run(pid):
    return CHECKS[pid](core.Check(pid))


SYS = "SystemTrace"


@check
def P01(c):
    exe = build.build()
    c.conform(exe, L.op_matrix(c.seed, c.n(4, 24)), SYS, label="operator x type x type, strict")
    c.conform(exe, L.op_matrix(c.seed, c.n(1, 6), fp=1), SYS, label="operator x type x type, fast, exact values")
    c.conform(exe, L.unary_matrix(c.seed, c.n(4, 40)), SYS, label="unary operators, conditions, promotions")
    c.conform(exe, L.string_ops(c.seed, c.n(60, 600)), SYS, label="string and list operators")
    c.conform(exe, L.expressions(c.seed, c.n(900, 15000)), SYS, label="random expressions")
    if c.thorough:
        for op in L.BINOPS:
            for lt, rt in (("u8", "u8"), ("i8", "i8"), ("u8", "i8"), ("i8", "u8")):
                c.conform(exe, L.sweep8(c.seed, op, lt, rt, 8), SYS, label=f"all pairs {lt} {op} {rt}")
    return c.finish()


@check
def P02(c):
    exe = build.build()
    c.conform(exe, L.typing_ops(c.seed, c.thorough), SYS, label="operand types of every construct")
    c.conform(exe, L.mutated(c.seed, c.n(2500, 40000)), SYS, label="edited programs")
    c.conform(exe, L.expressions(c.seed, c.n(300, 5000), key="ty"), SYS, label="random expressions")
    return c.finish()


@check
def P03(c):
    exe = build.build()
    c.conform(exe, L.conditions(c.seed, c.thorough), SYS, label="conditions of every type in every construct")
    c.conform(exe, L.effects(c.seed, c.n(1200, 20000)), SYS, label="logging operands")
    c.conform(exe, L.statements(c.seed, c.n(900, 12000), big=c.thorough), SYS, label="statement programs")
    return c.finish()


@check
def P04(c):
    exe = build.build()
    c.conform(exe, L.variables(c.seed, c.n(1500, 25000)), SYS, label="variables and scopes")
    return c.finish()


def engine_model(c, exe, quick):
    total = 0
    for setup in ("SS", "BB", "SB"):
        out = c.model("EngineMC", f"EngineMC_{setup}.cfg", workers=1)
        scs, n = E.mc_scenarios(out, c.seed, c.n(quick, 0))
        total += n
        c.conform(exe, scs, SYS, label=f"EngineMC {setup}: {len(scs)} of {n} transition scenarios replayed")
    return total


@check
def P05(c):
    exe = build.build()
    engine_model(c, exe, 400)
    c.conform(exe, E.histories(c.seed, c.n(300, 6000), 25), SYS, label="random histories")
    return c.finish()


@check
def P06(c):
    exe = build.build()
    c.conform(exe, E.histories(c.seed, c.n(500, 9000), 20, key="errs", errors=True), SYS, label="histories of failing executions")
    c.conform(exe, L.effects(c.seed, c.n(300, 4000), key="effe"), SYS, label="errors and stores inside expressions")
    return c.finish()


@check
def P07(c):
    exe = build.build()
    c.conform(exe, E.roundtrip(c.seed, c.n(700, 12000)), SYS, label="save, destroy, load, run")
    c.conform(exe, E.histories(c.seed, c.n(150, 3000), 25, key="rth"), SYS, label="random histories")
    return c.finish()


ASAN = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:detect_container_overflow=0:"
                        "max_allocation_size_mb=4096"}


@check
def P09(c):
    plain = build.build()
    asan = build.build("asan")
    out = c.model("ArenaMC", "ArenaMC.cfg", workers=1)
    scs, n = M.arena_mc(out, c.seed, 0)
    c.conform(plain, scs, "ArenaTrace", label=f"ArenaMC: all {n} operation sequences")
    c.conform(plain, M.arena_random(c.seed, c.n(600, 8000), c.n(60, 120)), "ArenaTrace", label="random sequences")
    c.conform(asan, M.arena_random(c.seed, c.n(300, 4000), c.n(60, 120), key="arenaasan"), "ArenaTrace",
              label="random sequences, AddressSanitizer", env=ASAN)
    if c.thorough:
        c.model("ArenaMC", "ArenaMC_4.cfg")
    return c.finish()


@check
def P10(c):
    exe = build.build()
    c.conform(exe, M.registry(c.seed, c.n(900, 15000), 40), "RegistryTrace", label="registrations, lookups, calls")
    return c.finish()


@check
def P08(c):
    plain = build.build()
    asan = build.build("asan")
    c.conform(plain, M.art_relax(c.seed), "ArtifactTrace", label="foreign strings x disabled checks")
    c.conform(plain, M.art_fields(c.seed, c.n(100, 3000)), "ArtifactTrace", label="damaged fields")
    c.conform(asan, M.art_fields(c.seed + 500, c.n(60, 1000)), "ArtifactTrace", label="damaged fields, AddressSanitizer", env=ASAN)
    c.conform(asan, M.art_cuts(c.seed, c.n(36, 60), 8), "ArtifactTrace", label="truncations, AddressSanitizer", env=ASAN)
    c.conform(asan, M.art_noise(c.seed, c.n(60, 2000)), "ArtifactTrace", label="noise, AddressSanitizer", env=ASAN)
    return c.finish()


@check
def P11(c):
    exe = build.build()
    c.conform(exe, B.scalars(c.seed, c.n(10, 150), c.n(8, 60)), SYS, label="scalar functions")
    c.conform(exe, B.powbig(c.seed), SYS, label="large integer exponents")
    c.conform(exe, B.signatures(c.seed, c.n(150, 2000), "P11"), SYS, label="signatures")
    return c.finish()


@check
def P12(c):
    exe, asan = build.build(), build.build("asan")
    c.conform(exe, B.strings(c.seed, c.n(16, 250)), SYS, label="string functions")
    c.conform(exe, B.signatures(c.seed, c.n(100, 1500), "P12"), SYS, label="signatures")
    c.conform(asan, B.strings(c.seed + 1, c.n(8, 60)), SYS, label="string functions, AddressSanitizer", env=ASAN)
    c.conform(asan, B.bounds(c.seed, "P12"), SYS, label="results that fill a chunk, AddressSanitizer", env=ASAN)
    return c.finish()


@check
def P13(c):
    exe, asan = build.build(), build.build("asan")
    c.conform(exe, B.lists(c.seed, c.n(8, 120)), SYS, label="list functions")
    c.conform(exe, B.compositions(c.seed, c.n(150, 3000)), SYS, label="compositions")
    c.conform(exe, B.signatures(c.seed, c.n(100, 1500), "P13"), SYS, label="signatures")
    c.conform(asan, B.lists(c.seed + 1, c.n(3, 30)), SYS, label="list functions, AddressSanitizer", env=ASAN)
    c.conform(asan, B.bounds(c.seed, "P13"), SYS, label="results that fill a chunk, AddressSanitizer", env=ASAN)
    return c.finish()


@check
def P14(c):
    exe, asan = build.build(), build.build("asan")
    c.conform(exe, B.groups(c.seed, c.n(10, 120)), SYS, label="aggregation and grouping")
    c.conform(exe, B.signatures(c.seed, c.n(100, 1500), "P14"), SYS, label="signatures")
    c.conform(asan, B.groups(c.seed + 1, c.n(3, 30)), SYS, label="aggregation and grouping, AddressSanitizer", env=ASAN)
    c.conform(asan, B.bounds(c.seed, "P14"), SYS, label="results that fill a chunk, AddressSanitizer", env=ASAN)
    return c.finish()


@check
def P15(c):
    exe, asan = build.build(), build.build("asan")
    c.conform(exe, B.elementwise(c.seed, c.n(7, 80)), SYS, label="element-wise functions")
    c.conform(exe, B.signatures(c.seed, c.n(100, 1500), "P15"), SYS, label="signatures")
    c.conform(asan, B.elementwise(c.seed + 1, c.n(2, 20)), SYS, label="element-wise functions, AddressSanitizer", env=ASAN)
    c.conform(asan, B.bounds(c.seed, "P15"), SYS, label="results that fill a chunk, AddressSanitizer", env=ASAN)
    return c.finish()


@check
def P16(c):
    exe = build.build()
    c.conform(exe, D.literals(c.seed, c.n(60, 3000)), SYS, label="literals and small texts")
    c.conform(exe, D.precedence(c.seed, c.n(200, 4000)), SYS, label="operator groupings")
    c.conform(exe, D.texts(c.seed, c.n(500, 8000)), SYS, label="printed programs")
    c.conform(exe, D.soups(c.seed, c.n(250, 5000)), SYS, label="edited token sequences")
    c.conform(exe, D.soups(c.seed, c.n(120, 3000), "pipe"), SYS, label="edited token sequences, pipeline")
    c.conform(exe, D.noise(c.seed, c.n(150, 3000)), SYS, label="byte noise")
    c.conform(build.build("asan"), D.noise(c.seed + 1, c.n(60, 1000)) + D.soups(c.seed + 1, c.n(60, 1000)), SYS,
              label="noise and edited texts, AddressSanitizer", env=ASAN)
    return c.finish()


@check
def P17(c):
    exe = build.build()
    c.conform(exe, D.pipelines(c.seed, c.n(900, 15000)), SYS, label="pipelines")
    c.conform(exe, D.wide(c.seed, c.n(60, 1500)), SYS, label="many sources")
    return c.finish()


TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_thread_leaks=0"}


@check
def P18(c):
    exe, tsan = build.build(), build.build("tsan")
    c.model("ThreadsMC", "ThreadsMC_live.cfg")
    c.model("ThreadsMC", "ThreadsMC_shared.cfg", fails=True)
    for setup in ("NN", "CC", "NCN", "BBBB", "BM"):
        out = c.model("ThreadsMC", f"ThreadsMC_{setup}.cfg", workers=1)
        scs, n, m = T.model(out, c.seed, c.n(260, 0))
        c.conform(exe, scs, SYS, label=f"ThreadsMC {setup}: {m} of {n} schedules enforced")
    c.conform(exe, T.orders(c.seed, c.n(150, 4000)), SYS, label="random programs and orders")
    c.conform(exe, T.stress(c.seed, c.n(25, 400), 60), SYS, label="free-running threads", tries=4)
    c.conform(tsan, T.stress(c.seed + 1, c.n(10, 150), 4), SYS, label="free-running threads, ThreadSanitizer", env=TSAN, tries=4)
    return c.finish()


@check
def P19(c):
    exe = build.build()
    c.conform(exe, G.reports(c.seed, c.n(220, 6000), "expr"), SYS, label="expression texts with faults")
    c.conform(exe, G.reports(c.seed, c.n(220, 6000), "pipe"), SYS, label="pipeline texts with faults")
    c.conform(exe, G.sources(c.seed, c.n(100, 3000)), SYS, label="several sources, some with faults")
    c.conform(exe, G.marked(D.soups(c.seed + 7, c.n(80, 2500)) + D.soups(c.seed + 7, c.n(60, 2500), "pipe")), SYS, label="edited token sequences")
    c.conform(exe, G.marked(D.noise(c.seed + 7, c.n(60, 2000)) + D.literals(c.seed, c.n(10, 300))), SYS, label="byte noise, literals and small texts")
    c.conform(exe, G.raw(c.seed, c.n(120, 4000)), SYS, label="trees with and without positions")
    c.conform(exe, G.rendered(c.seed, c.n(100, 2000)), SYS, label="the renderer")
    return c.finish()


@check
def P20(c):
    exe, asan = build.build(), build.build("asan")
    c.conform(exe, K.results(c.seed, c.n(500, 12000), 16), SYS, label="results kept while everything else is used again")
    c.conform(exe, K.again(c.seed, c.n(500, 12000)), SYS, label="constants, arguments and variables used again")
    c.conform(asan, K.results(c.seed + 1, c.n(80, 1500), 16) + K.again(c.seed + 1, c.n(80, 1500)), SYS, label="the same, AddressSanitizer", env=ASAN)
    return c.finish()


@check
def P21(c):
    exe = build.build()
    out = c.model("TreeMC", "TreeMC.cfg", workers=1)
    scs, n = N.model(out, c.seed, c.n(900, 0))
    c.conform(exe, scs, SYS, label=f"TreeMC: {len(scs)} of {n} transition scenarios replayed")
    c.conform(exe, N.histories(c.seed, c.n(500, 10000), 16), SYS, label="random histories of trees")
    c.conform(build.build("asan"), N.histories(c.seed + 1, c.n(80, 1500), 16), SYS, label="random histories, AddressSanitizer", env=ASAN)
    return c.finish()

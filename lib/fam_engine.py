"""Scenario families about engines, contexts and artifacts."""
import json, random
import core
from gen import *
from fam_lang import rng, scen


def mc_scenarios(out, seed, limit):
    """From the transitions TLC printed for EngineMC: per state one scenario with all operations
    that leave it unchanged, and per changing transition one that takes it and probes the result."""
    prog = core.printed(out, "PROGS")[0][1]
    loops, moves = {}, []
    for (chg,), h in core.printed(out, "EDGE"):
        if chg:
            moves.append(h)
        else:
            loops.setdefault(json.dumps(h[:-1]), []).append(h[-1])
    scs = []
    engines = [ENG(k, save=1 if s else 0) for k, s in zip(prog["kinds"], prog["saves"])]
    probe = []
    for e, k in enumerate(prog["kinds"]):
        probe += [exec_step(e=e), exec_step(e=e, api="void", c=0)]
        if k == "batch":
            probe += [{"op": "count", "e": e}, exec_step(e=e, at=2), {"op": "execall", "e": e, "in": 1, "api": "ret", "c": 0}]
        probe += [{"op": "save", "e": e, "b": 1, "null": 0}]
    pre = [{"op": "newreg", "r": 0, "user": 1}, {"op": "newreg", "r": 1, "user": 0}]

    def mk(steps):
        need = any(s["op"] == "load" for s in steps)
        return scen(prog["progs"], [prog["ins"]], (pre if need else []) + steps, [dict(e) for e in engines])
    for h, ops in loops.items():
        scs.append(mk(json.loads(h) + ops))
    for h in moves:
        scs.append(mk(h + probe))
    total = len(scs)
    if limit and total > limit:
        r = rng(seed, "mc")
        scs = r.sample(scs, limit)
    return scs, total


def rand_prog(r, ins, structs, errors):
    """a small program over the shared argument row `ins`: mostly valid, sometimes not"""
    g = Gen(r)
    g.ins = ins
    g.effects = r.random() < .5
    g.errors = errors or r.random() < .4
    c = r.random()
    if c < .08:
        return r.choice([EA, {"k": "ref", "n": "zz"}, bi("+", const("i32", 1), const("string", b"x")), fn("nosuch")])
    if c < .5:
        t = r.choice(NUMS + (["string", "i64list", "stringlist", "u8list"] if structs else []))
        p = g.expr(t, r.randint(0, 3))
        if errors and r.random() < .6:
            p = fn("err_" + t, p, const("i32", r.randrange(100)))
        return p
    items = g.stmts(r.randint(1, 3), r.randint(1, 2), r.sample(NUMS + ["string", "i32list"], 2))
    if errors:
        for _ in range(r.randint(0, 3)):
            t = r.choice(NUMS + ["string"])
            if r.random() < .5 and len(g.ins) < 16:
                # equal messages of different calls, next to each other
                for _ in range(r.choice([1, 2, 2, 3])):
                    if len(g.ins) < 16:
                        items.insert(r.randint(0, len(items)), fn("err_" + t, g.newarg(t), const("i32", 7777)))
                continue
            items.insert(r.randint(0, len(items)), fn("err_" + t, g.leaf(t) if r.random() < .5 else g.constant(t, g.payload(t)),
                                                      const("i32", 1000 + g.newtag() + 100 * r.randrange(9))))
    return seq(items)


def histories(seed, n, length, key="hist", errors=False):
    """random operation sequences over 1-3 engines, 3 contexts and 2 artifact slots"""
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        ne = r.choice([1, 2, 2, 3])
        kinds = [r.choice(["single", "batch"]) for _ in range(ne)]
        engines = [ENG(k, save=r.choice([0, 1, 1]), chunk=r.choice([1, 64, 4096])) for k in kinds]
        structs = r.random() < .4           # programs that return strings or lists: no void* calls then
        ins = []
        progs = [rand_prog(r, ins, structs, errors) for _ in range(r.randint(3, 6))]
        api = lambda: "ret" if structs else r.choice(["ret", "void"])
        steps = []
        for _ in range(length):
            e = r.randrange(ne)
            b = kinds[e] == "batch"
            c = r.random()
            if c < .2:
                ps = [r.randrange(len(progs)) for _ in range(r.choice([0, 1, 2, 3, 4]) if b else 1)]
                steps.append(compile_step(e, ps))
            elif c < .6:
                if b and r.random() < .5:
                    steps.append({"op": "execall", "e": e, "in": 1, "api": api(), "c": r.choice([-1, 0, 1])})
                else:
                    steps.append(exec_step(e=e, at=r.choice([0, 0, 1, 2, 7]) if b else 0, api=api(), c=r.choice([-1, 0, 0, 1, 2])))
            elif c < .65 and b:
                steps.append({"op": "count", "e": e})
            elif c < .77:
                steps.append({"op": "save", "e": e, "b": r.choice([0, 1]), "null": int(r.random() < .1),
                              "pre": r.choice(["", "x", "JFCA junk"])})
            elif c < .9:
                steps.append({"op": "load", "e": e, "b": r.choice([0, 1])})
            elif c < .97:
                steps.append(r.choice([{"op": "ctxerr", "c": r.randrange(3), "m": "H%d" % r.randrange(9)},
                                       {"op": "ctxclear", "c": r.randrange(3)}]))
            else:
                steps.append({"op": "newengine", "e": e})
        out.append(scen(progs, [[{"t": t, "v": p} for t, p in ins]], steps, engines, ctxs=(1, 64, 4096)))
    return out


def any_prog(r, g):
    """a program over every kind of node, constant and function"""
    c = r.random()
    if c < .55:
        t = r.choice(NUMS + ["string"] * 3 + LISTS)
        return g.expr(t, r.randint(0, 4)), t
    if c < .7:      # constants of every kind, returned or stored
        t = r.choice(NUMS + ["string"] + LISTS)
        k = g.constant(t, g.payload(t))
        return (k, t) if r.random() < .5 else (seq([fn("st_" + t, OUT, const("u32", 1), k)]), "void")
    g.vars = []
    return seq(g.stmts(r.randint(1, 4), r.randint(1, 3), r.sample(NUMS + ["string"] + LISTS, 3))), "void"


def roundtrip(seed, n):
    """compile, save (several times, into used strings), destroy, load into fresh and used engines
    with other registries, run everything on all of them"""
    out = []
    for i in range(n):
        r = rng(seed, "rt", i)
        kind = r.choice(["single", "batch"])
        fp = int(r.random() < .25)
        g = Gen(r, exactf=fp == 1)
        g.effects, g.errors = r.random() < .5, r.random() < .3
        g.maxstr = r.choice([8, 8, 40])
        ps, ts = [], []
        for _ in range(1 if kind == "single" else r.choice([1, 2, 3, 5])):
            p, t = any_prog(r, g)
            ps.append(p)
            ts.append(t)
        # a second, unrelated program the engines may hold before the load
        ps.append(seq([fn("st_i32", OUT, const("u32", 99), const("i32", 5))]))
        old = len(ps) - 1
        scal = all(t in NUMS + ["void"] for t in ts)
        m = len(ts)
        engines = [ENG(kind, fp=fp, save=1), ENG(kind, fp=fp if r.random() < .5 else 1 - fp, save=r.choice([0, 1])), ENG(kind, fp=fp, save=1)]

        def runs(e, k=1):
            for _ in range(k):
                if kind == "batch" and r.random() < .5:
                    st.append({"op": "execall", "e": e, "in": 1, "api": "void" if scal and r.random() < .5 else "ret", "c": r.choice([-1, 0])})
                else:
                    for at in range(m):
                        api = "void" if ts[at] == "void" or (ts[at] in NUMS and r.random() < .4) else "ret"
                        st.append(exec_step(e, at, 1, api, r.choice([-1, 0, 1])))
            if kind == "batch":
                st.append({"op": "count", "e": e})
        st = [{"op": "newreg", "r": 0, "user": 1}, {"op": "newreg", "r": 1, "user": 1}]
        st.append(compile_step(0, range(m), r=r.choice([-1, 0])))
        if r.random() < .5:
            runs(0)
        for _ in range(r.choice([1, 1, 2])):
            st.append({"op": "save", "e": 0, "b": 0, "null": 0, "pre": r.choice(["", "", "old bytes", "JFCA"])})
        if r.random() < .5:
            st.append({"op": "save", "e": 0, "b": 1, "null": 0, "pre": ""})
        if r.random() < .4:
            runs(0)
        c = r.random()
        if c < .3:
            st.append({"op": "newengine", "e": 0})
        elif c < .5:
            st.append(compile_step(0, [old]))
        if r.random() < .5:
            st.append({"op": "delreg", "r": 0})
        if r.random() < .5:
            st.append(compile_step(1, [old]))
        st.append({"op": "load", "e": 1, "b": 0, "r": r.choice([-1, 1])})
        runs(1)
        if r.random() < .3:
            st.append({"op": "save", "e": 1, "b": 2, "null": 0, "pre": ""})
        if r.random() < .4:
            st.append({"op": "delreg", "r": 1})
        if r.random() < .5:
            st.append({"op": "load", "e": r.choice([0, 1, 2]), "b": 0})
            runs(1)
        st.append({"op": "load", "e": 2, "b": 0})
        if r.random() < .4:
            st += [{"op": "newengine", "e": 0}, {"op": "newengine", "e": 1}]
        runs(2)
        if r.random() < .3:       # a loaded engine compiles again, and saves
            st += [compile_step(2, [old]), {"op": "save", "e": 2, "b": 3, "null": 0, "pre": "zz"}, {"op": "load", "e": 1, "b": 3}]
            st.append(exec_step(1, 0, 1, "void", 0))
        out.append(scen(ps, [g.inputs()], st, engines, ctxs=(1, 4096)))
    return out

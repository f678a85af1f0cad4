"""Scenario families about the language: operators, typing, control flow, variables."""
import copy, random
from gen import *

ALLT = NUMS + ["string"] + LISTS


def rng(seed, *k):
    return random.Random("/".join(map(str, (seed, *k))))


def scen(progs, ins, steps, engines=None, ctxs=(64,), **kw):
    return {"engines": engines or [ENG()], "ctxs": list(ctxs), "progs": progs, "ins": ins, "steps": steps, **kw}


def ARGS(ins):
    return [{"t": t, "v": p} for t, p in ins]


# ---------------------------------------------------------------- P01
def legal(op, lt, rt, a, b):
    """is `a op b` defined?  a, b: numbers of types lt, rt"""
    if op in SHIFT:
        return lt in INTS and rt in INTS and 0 <= b < 8 * SIZE[lt]
    if op in ("/", "%") and lt in INTS and rt in INTS:
        t = promote(lt, rt)
        lo, hi = irange(t)
        w = hi - lo + 1
        x = (b - lo) % w + lo            # b as a t
        return x not in (0, -1)
    return True


def op_matrix(seed, nin, fp=0):
    """every binary operator on every pair of numeric types: one batch per (operator, left type),
    runtime operands, literal operands and mixed ones"""
    out = []
    for op in BINOPS:
        for lt in NUMS:
            if op in BIT + SHIFT and lt in FLOATS:
                continue
            rts = INTS if op in BIT + SHIFT else NUMS
            r = rng(seed, "opm", op, lt, fp)
            g = Gen(r, exactf=fp == 1)

            def pick(t, bound=None):
                return dec(t, enc(t, g.num(t)))

            def pairs(rt):
                for _ in range(200):
                    a, b = pick(lt), pick(rt)
                    if op in SHIFT:
                        b = r.randrange(min(8 * SIZE[lt], 128))
                    if fp and op in ("/", "%") and promote(lt, rt) in FLOATS:
                        return float(r.choice([2, 4, 8, -16])), 2.0       # exact also under reassociation
                    if legal(op, lt, rt, a, b):
                        return a, b
                return 1, 1
            progs, lits, ins = [], [], []
            for k, rt in enumerate(rts):
                progs.append(bi(op, arg(lt, 0), arg(rt, k + 1)))
                a, b = pairs(rt)
                c = r.random()
                la, lb = const(lt, a), const(rt, b)
                if c < 0.3:
                    la = fn("id_" + lt, la)
                elif c < 0.6:
                    lb = fn("id_" + rt, lb)
                lits.append(bi(op, la, lb))
            for _ in range(nin):
                row = None
                for _ in range(400):
                    a = pick(lt)
                    if fp and op in ("/", "%") and lt in FLOATS:
                        a = float(r.choice([2, 4, 8, -16]))
                    bs = []
                    for rt in rts:
                        bt = None
                        for _ in range(60):
                            b = pick(rt) if op not in SHIFT else r.randrange(min(8 * SIZE[lt], 128))
                            if fp and op in ("/", "%") and promote(lt, rt) in FLOATS:
                                b = 2 if rt in INTS else 2.0
                                if lt in INTS:
                                    a = 8
                            if legal(op, lt, rt, a, b):
                                bt = b
                                break
                        if bt is None:
                            break
                        bs.append(bt)
                    if len(bs) == len(rts):
                        row = [{"t": lt, "v": enc(lt, a)}] + [{"t": rt, "v": enc(rt, b)} for rt, b in zip(rts, bs)]
                        break
                ins.append(row)
            n = len(progs)
            steps = [compile_step(0, range(2 * n))]
            for i in range(nin):
                steps += [exec_step(at=k, inp=i + 1) for k in range(n)]
            steps += [exec_step(at=n + k) for k in range(n)]
            out.append(scen(progs + lits, ins, steps, [ENG("batch", fp=fp)]))
    return out


def unary_matrix(seed, nin, fp=0):
    out = []
    for t in NUMS:
        r = rng(seed, "unm", t, fp)
        g = Gen(r, exactf=fp == 1)
        ops = ["+", "-", "not"] + (["~"] if t in INTS else [])
        progs = [un(o, arg(t, 0)) for o in ops] + [un(o, un(p, arg(t, 0))) for o in ops for p in ops
                                                   if not (o == "~" and p == "-" and t in FLOATS)]
        progs += [un(o, const(t, g.num(t))) for o in ops]
        # used as conditions
        progs += [{"k": "if", "a": [arg(t, 0), const("i32", 1), const("i32", 2)]},
                  {"k": "sw", "a": [un("-", arg(t, 0)), const("i32", 1), arg(t, 0), const("i32", 2), const("i32", 3)]}]
        # converted to every wider type
        progs += [{"k": "if", "a": [const("u8", 1), arg(t, 0), const(o, 1)]} for o in NUMS if RANK[o] >= RANK[t]]
        ins = [[{"t": t, "v": enc(t, g.num(t))}] for _ in range(nin)]
        if not fp:
            special = [0, 1] + ([irange(t)[0], irange(t)[1]] if t in INTS else [-0.0, float("nan"), float("inf"), float("-inf")])
            ins += [[{"t": t, "v": enc(t, x)}] for x in special]
        steps = [compile_step(0, range(len(progs)))] + [exec_step(at=k, inp=i + 1) for i in range(len(ins)) for k in range(len(progs))]
        out.append(scen(progs, ins, steps, [ENG("batch", fp=fp)]))
    return out


def sweep8(seed, op, lt, rt, rows, base=0):
    """all pairs of two 8-bit types for one operator (one scenario per `rows` left values)"""
    out = []
    ra, rb = irange(lt), irange(rt)
    for a0 in range(ra[0] + base, ra[1] + 1, rows):
        ins, steps = [], [compile_step(0, (0,))]
        for a in range(a0, min(a0 + rows, ra[1] + 1)):
            for b in range(rb[0], rb[1] + 1):
                if legal(op, lt, rt, a, b):
                    ins.append([{"t": lt, "v": enc(lt, a)}, {"t": rt, "v": enc(rt, b)}])
                    steps.append(exec_step(inp=len(ins)))
        out.append(scen([bi(op, arg(lt, 0), arg(rt, 1))], ins, steps))
    return out


def string_ops(seed, n):
    out = []
    for i in range(n):
        r = rng(seed, "str", i)
        g = Gen(r)
        al = r.choice([b"ab", b"abc", bytes(range(256))])
        g.string = lambda: [r.choice(al) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5, 9]))]
        progs = []
        for op in REL:
            progs.append(bi(op, g.leaf("string"), g.leaf("string")))
        for t in ["string"] + r.sample(LISTS, 3):
            progs.append(bi("+", g.leaf(t), bi("+", g.leaf(t), g.leaf(t))) if r.random() < .5 else bi("+", g.leaf(t), g.leaf(t)))
        g.ins = g.ins[:16]
        steps = [compile_step(0, range(len(progs)))] + [exec_step(at=k) for k in range(len(progs))]
        out.append(scen(progs, [g.inputs()], steps, [ENG("batch")]))
    return out


def expressions(seed, n, key="expr", effects=0.5, errors=0.2, depth=4, fast=0.3):
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        fp = 1 if r.random() < fast else 0
        g = Gen(r, exactf=fp == 1)
        g.effects = r.random() < effects
        g.errors = r.random() < errors
        t = r.choice(NUMS + NUMS + ["string", "string", "i32list", "u8list", "f64list", "stringlist"])
        p = g.expr(t, r.randint(1, depth))
        steps = [compile_step(), exec_step()]
        steps.append(exec_step(api="void", c=0) if t in NUMS else exec_step(c=0))
        out.append(scen([p], [g.inputs()], steps, [ENG(fp=fp)]))
    return out


# ---------------------------------------------------------------- P02
PTR, VOID = "ptr", "void"


def typed_leaf(t, r, literal):
    if t == PTR:
        return r.choice([EA, OUT, EC])
    if t == VOID:
        return r.choice([seq([]), fn("st_i32", OUT, const("u32", 1), const("i32", 5))])
    g = Gen(r)
    if literal:
        p = g.payload(t)
        if t in INTS and literal == 2:
            p = enc(t, 0)
        return g.constant(t, p)
    return arg(t, 0)


def typing_ops(seed, full):
    """every operator on every pair of operand types, accepted or rejected; each program is one
    Compile of its own engine"""
    T = NUMS + ["string", "i32list", "stringlist", PTR, VOID] + (["u8list", "i64list", "f64list", "f32list"] if full else ["f64list"])
    out = []
    for op in BINOPS:
        for lt in T:
            progs = []
            r = rng(seed, "ty", op, lt)
            for rt in T:
                progs.append(bi(op, typed_leaf(lt, r, r.choice([0, 1])), typed_leaf(rt, r, 0)))
                progs.append(bi(op, typed_leaf(lt, r, 0), typed_leaf(rt, r, r.choice([1, 2, 2]))))
            out.append(scen(progs, [], [compile_step(0, (k,)) for k in range(len(progs))]))
    for op in ["+", "-", "not", "~"]:
        r = rng(seed, "ty1", op)
        progs = [un(op, typed_leaf(t, r, l)) for t in T for l in (0, 1)]
        out.append(scen(progs, [], [compile_step(0, (k,)) for k in range(len(progs))]))
    for a in T:
        r = rng(seed, "ty3", a)
        L = lambda t: typed_leaf(t, r, r.choice([0, 0, 1, 2]))
        progs = []
        for b in T:
            progs += [{"k": "if", "a": [L(r.choice(NUMS)), L(a), L(b)]}, {"k": "if", "a": [L(a), L(b), L(b)]},
                      {"k": "sw", "a": [L("u8"), L(a), L(r.choice(NUMS)), L(b), L(r.choice([a, b]))]},
                      {"k": "sw", "a": [L(a), L(b), L(b)]},
                      {"k": "ib", "a": [L(a), L(b)]}, {"k": "ib", "a": [L("u8"), L(VOID), L(a), L(b)]},
                      {"k": "ib", "a": [L(a), L(VOID), L(b)]},
                      fn("id_" + a if a not in (PTR, VOID) else "id_i32", L(b)),
                      fn("st_" + a if a not in (PTR, VOID) else "st_i32", OUT, const("u32", 1), L(b)),
                      seq([("x", 0, L(a)), ("x", r.choice([0, 0, 1]), L(b))]),
                      seq([("x", 1, L(a)), ("x", r.choice([0, 1]), L(b))]),
                      seq([("x", 0, L(a)), seq([("x", 0, L(b)), {"k": "ref", "n": "x"}], iso=r.choice([0, 1]))]),
                      seq([("x", 0, L(a)), {"k": "ib", "a": [L("u8"), seq([("x", 0, L(b))])]}])]
        out.append(scen(progs, [], [compile_step(0, (k,)) for k in range(len(progs))]))
    # arities
    for n in range(0, 7):
        r = rng(seed, "tyn", n)
        L = lambda t: typed_leaf(t, r, 0)
        progs = []
        for _ in range(8):
            for k in ("if", "sw", "ib"):
                progs.append({"k": k, "a": [L(r.choice(["u8", "i32", "f64", "string"]) if k != "ib" or (j % 2 == 0 and j < n - 1) else VOID)
                                            for j in range(n)]})
            progs.append(fn(r.choice(["id_i32", "cm_i64", "err_i32", "st_i32", "nosuch"]), *[L(r.choice(["i32", "i64", PTR, "u32"])) for _ in range(n)]))
        out.append(scen(progs, [], [compile_step(0, (k,)) for k in range(len(progs))]))
    return out


def mutated(seed, n):
    """well-typed programs with one or two random edits"""
    out = []
    for i in range(n):
        r = rng(seed, "mut", i)
        g = Gen(r)
        g.effects = r.random() < .8
        types = r.sample(NUMS + ["string", "i32list"], 2)
        p = g.expr(r.choice(types), 3) if r.random() < .5 else seq(g.stmts(r.randint(1, 4), 2, types))
        for _ in range(r.choice([1, 1, 2])):
            pth, nd = r.choice(nodes(p))
            h = Gen(r)
            h.ins = g.ins
            c = r.random()
            if c < .3:
                new = h.expr(r.choice(NUMS + ["string", "i32list", "u8list", "ptr"]), 1)
            elif c < .4:
                new = {"k": "ref", "n": r.choice(["v0", "v1", "v2", "zz"])}
            elif c < .5:
                new = r.choice([EA, EC, OUT, seq([]), const("i32", 0)])
            elif c < .6:
                new = bi(r.choice(BINOPS), nd, h.leaf(r.choice(NUMS + ["string"])))
            elif c < .7:
                new = un(r.choice(["+", "-", "not", "~"]), nd)
            elif c < .8:
                new = copy.deepcopy(nd)
                if isinstance(new.get("a"), list) and new["k"] != "no":
                    if r.random() < .5 and new["a"]:
                        new["a"].pop(r.randrange(len(new["a"])))
                    else:
                        new["a"].insert(r.randint(0, len(new["a"])), h.leaf(r.choice(NUMS + ["string"])))
                elif new["k"] == "no" and new["v"]:
                    k = r.randrange(len(new["v"]))
                    new["v"][k] = {"n": r.choice(["v0", "v1", "v2", "", "q"]), "c": r.choice([0, 0, 1])}
            else:
                new = {"k": r.choice(["if", "sw", "ib"]), "a": [h.expr(r.choice(NUMS + ["string"]), 1) for _ in range(r.randint(0, 5))]}
            p = replace(p, pth, new)
        out.append(scen([p], [g.inputs()], [compile_step()]))
    return out


# ---------------------------------------------------------------- P03
def effects(seed, n, key="eff"):
    """expressions in which every operand logs itself: short circuits, if, switch and their order"""
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        g = Gen(r)
        g.effects = True
        g.errors = r.random() < .3

        def tr(t, e):
            return fn("tr_" + t, OUT, const("u32", g.newtag()), e)

        def er(t, e):
            return fn("err_" + t, e, const("i32", g.newtag())) if g.errors and r.random() < .3 else e

        def go(t, d):
            if d == 0:
                return tr(t, er(t, g.leaf(t)))
            c = r.random()
            if t == "u8" and c < .55:
                e = bi(r.choice(LOG), go(r.choice(["u8", "u8", "i32", "f64"]), d - 1), go(r.choice(["u8", "i64"]), d - 1))
            elif t == "u8" and c < .65:
                e = un("not", go("u8", d - 1))
            elif c < .8:
                m = r.randint(1, 3)
                e = {"k": "sw", "a": [x for _ in range(m) for x in (go("u8", d - 1), go(t, d - 1))] + [go(t, d - 1)]}
                if m == 1 and r.random() < .7:
                    e["k"] = "if"
            else:
                e = bi("+", go(t, d - 1), go(t, d - 1))
            return tr(t, e) if r.random() < .5 else e
        t = r.choice(["u8", "u8", "i32", "i64", "f64", "string", "i32list"])
        p = go(t, r.randint(1, 3))
        if t not in NUMS or r.random() < .3:
            p = seq([p])
        steps = [compile_step(), exec_step(api="void", c=0)]
        ins = [g.inputs()]
        for _ in range(3):
            ins.append(g.reinput())
            steps.append(exec_step(api="void", c=r.choice([-1, 0]), inp=len(ins)))
        out.append(scen([p], ins, steps))
    return out


SPECIALS = {t: [0, 1, irange(t)[1], irange(t)[0] if t in SIGNED else irange(t)[1] - 1, 256 if SIZE[t] > 1 else 2] for t in INTS}
SPECIALS.update({t: [0.0, -0.0, float("nan"), 1.0, -2.5, float("inf"), 1e-45 if t == "f32" else 5e-324] for t in FLOATS})


def conditions(seed, full):
    """every construct that tests a condition, with run-time and literal conditions of every type"""
    out = []
    for t in NUMS:
        r = rng(seed, "cond", t)
        sp = SPECIALS[t]

        def shapes(x, y):
            g = Gen(r)

            def tr(t, e):
                return fn("tr_" + t, OUT, const("u32", g.newtag()), e)

            def body():
                return seq([fn("st_u8", OUT, const("u32", g.newtag()), const("u8", 1))])
            X, Y = (lambda: tr(t, x)), (lambda: tr(t, y))
            v = lambda: tr("i32", const("i32", g.newtag()))
            yield {"k": "if", "a": [X(), v(), v()]}
            yield {"k": "sw", "a": [X(), v(), Y(), v(), v()]}
            yield {"k": "sw", "a": [const("u8", 0), v(), X(), v(), Y(), v(), v()]}
            yield {"k": "ib", "a": [X(), body()]}
            yield {"k": "ib", "a": [X(), body(), Y(), body()]}
            yield {"k": "ib", "a": [X(), body(), Y(), body(), body()]}
            yield tr("u8", bi("and", X(), Y()))
            yield tr("u8", bi("or", X(), Y()))
            yield tr("u8", un("not", X()))
            yield {"k": "if", "a": [bi("and", bi("or", X(), Y()), X()), v(), v()]}
            yield {"k": "sw", "a": [un("not", X()), v(), bi("or", Y(), X()), v(), v()]}
        progs = list(shapes(arg(t, 0), arg(t, 1)))
        ins = [[{"t": t, "v": enc(t, a)}, {"t": t, "v": enc(t, b)}] for a in sp for b in sp]
        if not full:
            ins = [[{"t": t, "v": enc(t, a)}, {"t": t, "v": enc(t, b)}] for i, a in enumerate(sp) for b in
                   (sp[0], sp[i], r.choice(sp))]
        steps = [compile_step(0, range(len(progs)))]
        steps += [exec_step(at=k, inp=i + 1, api="void") for i in range(len(ins)) for k in range(len(progs))]
        out.append(scen(progs, ins, steps, [ENG("batch")]))
        # literal conditions
        progs = [p for a in sp for p in shapes(const(t, a), const(t, r.choice(sp)))]
        out.append(scen(progs, [[]], [compile_step(0, range(len(progs)))] + [exec_step(at=k, api="void") for k in range(len(progs))],
                        [ENG("batch")]))
    return out


def statements(seed, n, key="stmt", multi=0.5, big=False):
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        g = Gen(r)
        g.effects = r.random() < .8
        g.errors = r.random() < .2
        types = r.sample(NUMS + ["string", "i32list", "f64list", "stringlist"], r.randint(1, 4))
        ps = []
        for _ in range(r.choice([2, 3]) if r.random() < multi else 1):
            g.vars = []
            ps.append(seq(g.stmts(r.randint(1, 9 if big else 5), r.randint(1, 4 if big else 3), types)))
        m = len(ps)
        st = [compile_step(0, range(m))] + [exec_step(at=k, api="void", c=0) for k in range(m)]
        if m > 1:
            st += [{"op": "execall", "e": 0, "in": 1, "api": "void", "c": -1}, {"op": "count", "e": 0}]
        out.append(scen(ps, [g.inputs()], st, [ENG("single" if m == 1 else "batch")]))
    return out


# ---------------------------------------------------------------- P04
def variables(seed, n, key="var"):
    """programs about variables: a few names and types, deep if blocks and sequences, every
    variable read after every statement, several condition values; and batches whose entries
    reuse the names with other types or mention names of their neighbours"""
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        g = Gen(r)
        types = r.sample(["i32", "u8", "i64", "f64", "string", "u16", "i32list"], 2)
        conds = []

        def cond():
            if len(g.ins) < 16 and r.random() < .7:
                e = g.newarg("u8", enc("u8", r.choice([0, 1])))
                conds.append(len(g.ins) - 1)
            else:
                e = const("u8", r.choice([0, 1]))
            c = r.random()
            if c < .2:
                e = bi(r.choice(LOG), e, const("u8", r.choice([0, 1])))
            elif c < .3:
                e = {"k": "if", "a": [e, const("u8", 1), const("u8", 0)]}
            return e

        def dump(vs):
            return [fn("st_" + t, OUT, const("u32", g.newtag()), {"k": "ref", "n": v}) for v, t, _ in vs]

        def value(t):
            vs = [v for v, vt, _ in g.vars if vt == t]
            if vs and r.random() < .5:
                e = {"k": "ref", "n": r.choice(vs)}
                if r.random() < .5 and t in NUMS + ["string"]:
                    e = bi("+", e, g.constant(t, g.payload(t)))
                return e
            return g.constant(t, g.payload(t)) if r.random() < .8 else g.leaf(t)

        def body(d, k):
            items = []
            for _ in range(k):
                c = r.random()
                mut = [(v, t) for v, t, cc in g.vars if not cc]
                if c < .3 and mut:
                    v, t = r.choice(mut)
                    items.append((v, 0, value(t)))
                elif c < .5:
                    v = r.choice("abcdef")
                    if not any(v == x[0] for x in g.vars):
                        t, cc = r.choice(types), int(r.random() < .2)
                        items.append((v, cc, value(t)))
                        g.vars.append((v, t, cc))
                elif c < .8 and d > 0:
                    a = []
                    for _ in range(r.choice([1, 1, 2, 3])):
                        a += [cond(), seq(g.scoped(lambda: body(d - 1, r.randint(0, 3))))]
                    if r.random() < .5:
                        a.append(seq(g.scoped(lambda: body(d - 1, r.randint(0, 3)))))
                    items.append({"k": "ib", "a": a})
                elif d > 0:
                    if r.random() < .4:
                        its = []
                        for _ in range(r.randint(1, 3)):
                            its += g.scoped(lambda: body(d - 1, 1))
                        items.append(seq(its, iso=1))
                    else:
                        items.append(seq(body(d - 1, r.randint(0, 3))))
                if g.vars and r.random() < .6:
                    items += dump(r.sample(g.vars, min(len(g.vars), 3)))
            return items
        def deep(d):
            """a chain of nested scopes: each level introduces names, and assigns names of any outer level"""
            items = []
            if r.random() < .7 or not g.vars:
                v, t = "v%d" % g.newtag(), r.choice(types)
                items.append((v, 0, value(t)))
                g.vars.append((v, t, 0))
            mut = [(v, t) for v, t, cc in g.vars if not cc]
            if r.random() < (.9 if d == 0 else .4):
                v, t = r.choice(mut)
                items.append((v, 0, value(t)))
            if d > 0:
                inner = g.scoped(lambda: seq(deep(d - 1)))
                c = r.random()
                if c < .5:
                    items.append({"k": "ib", "a": [cond(), inner]})
                elif c < .65:
                    items.append({"k": "ib", "a": [cond(), seq([]), const("u8", 1), inner]})
                elif c < .8:
                    items.append({"k": "ib", "a": [cond(), seq(g.scoped(lambda: body(0, 1))), inner]})
                elif c < .9:
                    items.append(seq([inner], iso=1))
                else:
                    items.append(inner)
            if g.vars and r.random() < .7:
                items += dump(r.sample(g.vars, min(len(g.vars), 4)))
            return items
        ps = []
        isdeep = r.random() < .3
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            g.vars = []
            p = seq(deep(r.randint(4, 8)) if isdeep else body(r.randint(1, 3), r.randint(3, 6)))
            p["a"] += dump(g.vars)
            p["v"] += [{"n": "", "c": 0} for _ in g.vars]
            ps.append(p)
        if r.random() < .12:           # a stray mention of some name somewhere
            p = r.choice(ps)
            p["a"].append({"k": "ref", "n": r.choice("abcdefg")})
            p["v"].append({"n": r.choice(["", "a", "z"]), "c": 0})
        m = len(ps)
        ins = [g.inputs()]
        for _ in range(3):
            x = copy.deepcopy(ins[0])
            for c in conds:
                x[c]["v"] = [r.choice([0, 1])]
            ins.append(x)
        st = [compile_step(0, range(m))]
        for k in range(len(ins)):
            st += [exec_step(at=j, api="void", c=0, inp=k + 1) for j in range(m)]
        if m > 1:
            st += [{"op": "execall", "e": 0, "in": 1, "api": "void", "c": -1}, {"op": "count", "e": 0}]
        out.append(scen(ps, ins, st, [ENG("single" if m == 1 else "batch")]))
    return out

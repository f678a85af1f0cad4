"""Scenario families about the reports of rejected texts: programs with faults of every kind printed
with random layout, compiled one after the other on the same engines.  Where the fault is and what
the report must say is decided by Diag.tla from the same bytes."""
import copy
from gen import *
from fam_lang import rng, scen, nodes, BINOPS, mutated, typing_ops
from fam_dsl import Printer, PGen, expr_progs, pipe_prog, WORDS


def inject(r, g, p):
    """one random edit of the tree, often a fault"""
    cand = [(pth, nd) for pth, nd in nodes(p) if nd["k"] != "no"]
    if not cand:
        return p
    pth, nd = r.choice(cand)
    h = Gen(r)
    h.ins = g.ins
    leaf = lambda: h.leaf(r.choice(NUMS + ["string"]))
    c = r.random()
    if nd["k"] == "ib" and c < .5:
        new = copy.deepcopy(nd)
        new["a"][0] = r.choice([const("string", []), leaf(), {"k": "ref", "n": "zz"}])
    elif nd["k"] == "ib":
        new = leaf()
    elif c < .12:
        new = h.expr(r.choice(NUMS + ["string", "i32list", "u8list", "ptr"]), 1)
    elif c < .24:
        new = {"k": "ref", "n": r.choice(["v0", "v1", "v2", "zz", "a", "x1"])}
    elif c < .34:
        new = r.choice([EA, EC, OUT, const("i32", 0), const("string", list(b"s"))])
    elif c < .5:
        new = bi(r.choice(BINOPS), nd, leaf()) if r.random() < .5 else bi(r.choice(BINOPS), leaf(), nd)
    elif c < .6:
        new = un(r.choice(["+", "-", "not", "~"]), nd)
    elif c < .68:
        new = {"k": "if", "a": [r.choice([leaf(), nd]) for _ in range(r.choice([1, 2, 3, 3, 3, 3, 4]))]}
    elif c < .76:
        new = {"k": "sw", "a": [r.choice([leaf(), leaf(), nd, h.leaf("i32list")]) for _ in range(r.choice([1, 2, 3, 5, 5, 5, 7]))]}
    elif c < .86:
        new = fn(r.choice(["id_i32", "cm_i64", "nosuch", "st_i32", "in", "id_string"]), *[r.choice([leaf(), nd, OUT]) for _ in range(r.randint(0, 3))])
    else:
        new = copy.deepcopy(nd)
        if isinstance(new.get("a"), list):
            if r.random() < .5 and new["a"]:
                new["a"].pop(r.randrange(len(new["a"])))
            else:
                new["a"].insert(r.randint(0, len(new["a"])), leaf())
        else:
            new = {"k": "ref", "n": "nope"}
    p = copy.deepcopy(p)
    q = p
    for s in pth[:-1]:
        q = q[s]
    if pth:
        q[pth[-1]] = new
    return p


def lets(r, p):
    """faults in the declarations"""
    p = copy.deepcopy(p)
    named = [v for v in p["v"] if v["n"]]
    if named:
        v = r.choice(named)
        c = r.random()
        if c < .4:
            v["c"] = 1
        elif c < .7 and len(named) > 1:
            v["n"] = r.choice(named)["n"]
        else:
            v["n"] = "nn"
    return p


def tokens_of(r, kind):
    g = Gen(r) if kind == "expr" else PGen(r)
    g.effects = kind == "pipe"
    p = seq(expr_progs(r, g, 0)) if kind == "expr" else pipe_prog(r, g, 1)
    for _ in range(r.choice([0, 1, 1, 1, 2])):
        p = inject(r, g, p)
    if r.random() < .25:
        p = lets(r, p)
    if p["k"] != "no":
        p = seq([p])
    pr = Printer(r, g)
    toks = [t if isinstance(t, bytes) else t.encode() for t in pr.stmts(p)]
    if r.random() < .2 and toks:
        k = r.randrange(len(toks))
        c = r.random()
        if c < .4:
            del toks[k]
        elif c < .7:
            toks.insert(k, r.choice(WORDS).encode())
        else:
            toks[k] = r.choice([b"@", b"'", b"\"x", b"256u8", b"99999999999", b"$", b"\\", b"\xc3\xa9", b"when", b"}", b"128i8", b"1e5"])
    for k, t in enumerate(toks):
        if t[:1] in (b"'", b'"') and len(t) > 1 and r.random() < .3:
            toks[k] = t[:1] + r.choice([b"\n", b"\n\n", b"\r\n"]) + t[1:]
    return pr, toks


def text_of(r, kind, small=False):
    while True:
        try:
            pr, toks = tokens_of(r, kind)
        except (ValueError, KeyError, TypeError):      # a tree that no text can express
            continue
        if len(toks) <= (60 if small else 150):
            break
    c = r.random()
    head = b""
    if c < .3:
        head = r.choice([b"\n", b"\r\n", b"// x\n", b"/*\n*/", b" \n\t"]) * r.choice([1, 2, 7, 8, 9, 10, 11])
    elif c < .34:
        head = b"\n" * r.choice([97, 98, 99, 100])
    elif c < .4:
        head = b" " * r.choice([1, 7, 9, 12, 60])
    return list(head) + pr.layout(toks, noisy=r.random() < .75)


def reports(seed, n, kind, key="diag"):
    out = []
    for i in range(n):
        r = rng(seed, key, kind, i)
        txs = [text_of(r, kind, small=True) for _ in range(8)]
        st = [compile_step(r.randrange(2), [j], diag=1) for j in range(len(txs))]
        # again after other compilations, on another engine
        st += [compile_step(r.randrange(2), [r.randrange(len(txs))], diag=1) for _ in range(3)]
        out.append(scen([], [[]], st, [ENG(kind)] * 2, texts=txs))
    return out


def sources(seed, n):
    """pipelines of several sources, some of them at fault"""
    out = []
    for i in range(n):
        r = rng(seed, "diagsrc", i)
        txs = [text_of(r, "pipe", small=True) for _ in range(6)]
        good = []
        for _ in range(4):
            g = PGen(r)
            pr = Printer(r, g)
            good.append(len(txs))
            txs.append(pr.layout(pr.stmts(pipe_prog(r, g, 1))))
        st = []
        for j in range(6):
            ids = r.sample(good, r.choice([1, 2, 3]))
            ids.insert(r.randint(0, len(ids)), j)
            if r.random() < .2:
                ids.insert(r.randint(0, len(ids)), r.randrange(6))
            st.append(compile_step(0, ids, diag=1))
        out.append(scen([], [[]], st, [ENG("pipe")], texts=txs))
    return out


def marked(scs):
    for s in scs:
        for st in s["steps"]:
            if st["op"] == "compile":
                st["diag"] = 1
        s["steps"] = [st for st in s["steps"] if st["op"] == "compile"]
    return scs


def located(r, p, size, dense):
    """the tree, with extents of a text of that size on most of its nodes"""
    p = copy.deepcopy(p)
    for _, nd in nodes(p):
        if r.random() < dense:
            b = r.randint(1, size)
            c = r.random()
            nd["p"] = [b, b if c < .05 else min(size + 1, b + (r.randint(1, 6) if c < .7 else r.randint(1, size)))]
    return p


def source(r):
    n = r.choice([1, 2, 3, 9, 10, 11, 12, 30, 101])
    lines = [[r.choice([32, 32, 9, 97, 59, 61, 40, 255, 195, 13, 94]) for _ in range(r.choice([0, 1, 3, 8, 20]))] for _ in range(n)]
    x = lines[0]
    for t in lines[1:]:
        x = x + [10] + t
    return x or [97]


def raw(seed, n):
    """trees that no text was read for, with positions or without"""
    r = rng(seed, "raw")
    progs = [p for s in mutated(seed, n * 6) for p in s["progs"]] + r_some([p for s in typing_ops(seed, False) for p in s["progs"]], r, n * 2)
    r.shuffle(progs)
    out = []
    for i in range(0, len(progs), 8):
        x = source(r)
        dense = r.choice([0, .5, .8, 1, 1])
        ps = [located(r, p, len(x), dense) for p in progs[i:i + 8]]
        st = [compile_step(0, [j], diag=1) for j in range(len(ps))]
        for _ in range(4):
            st.append(compile_step(1, [r.randrange(len(ps)) for _ in range(r.choice([1, 2, 3]))], diag=1))
        out.append(scen(ps, [[]], st, [ENG("single"), ENG("batch")], src=x))
    return out


def r_some(xs, r, n):
    return xs if len(xs) <= n else r.sample(xs, n)


def rendered(seed, n):
    """the class that renders reports, on its own"""
    out = []
    for i in range(n):
        r = rng(seed, "rend", i)
        x = source(r)
        st = []
        for _ in range(12):
            text = lambda: [r.choice([97, 98, 32, 58, 200]) for _ in range(r.choice([0, 1, 4, 12]))]
            s = {"op": "report", "warn": r.randint(0, 1), "m": text(), "notes": [text() for _ in range(r.choice([0, 0, 1, 2]))],
                 "hints": [text() for _ in range(r.choice([0, 0, 1, 2]))]}
            if r.random() < .85:
                b = r.randint(1, len(x) + 1)
                s["p"] = [b, r.randint(b, len(x) + 1)]
            st.append(s)
        out.append(scen([], [[]], st, [], src=x))
    return out

"""Scenario families about what executions leave alone: arguments, constants, results handed out."""
from gen import *
from fam_lang import rng, scen
from fam_fn import FnGen

KEPT = ["string"] * 3 + LISTS


def results(seed, n, length):
    """results of every type and origin, kept while contexts, arguments and engines are used again or destroyed"""
    out = []
    for i in range(n):
        r = rng(seed, "keep", i)
        g = FnGen(r)
        progs = []
        for _ in range(r.randint(4, 7)):
            t = r.choice(KEPT)
            c = r.random()
            if c < .25:
                p = g.newarg(t, g.newpayload(t))
            elif c < .45:
                p = g.constant(t, g.newpayload(t))
            elif c < .6:
                p = {"k": "if", "a": [g.newarg("u8", enc("u8", r.randint(0, 1))), g.fleaf(t), g.constant(t, g.newpayload(t))]}
            elif c < .75:
                p = bi("+", g.fleaf(t), g.fleaf(t))
            elif c < .8:
                p = fn("rep_i64", g.newarg("i64", g.newpayload("i64")), const("i32", r.choice([0, 1, 5, 200])))
            else:
                p = g.fexpr(t, 3)
            progs.append(p)
        rows = [g.inputs()]
        for _ in range(3):
            rows.append([{"t": t, "v": g.newpayload(t)} for t, _ in g.ins])
        # argument rows 1 and 2 are in use; 3 and 4 take their places later
        kinds = ["single", r.choice(["single", "batch"])]
        engines = [ENG(k, chunk=r.choice([1, 64, 4096])) for k in kinds]
        n = len(progs)
        on = [None, None]
        steps = []

        def comp(e):
            ps = [r.randrange(n)] if kinds[e] == "single" else [r.randrange(n) for _ in range(r.randint(2, 3))]
            on[e] = ps
            steps.append(compile_step(e, ps))

        def run(e, **kw):
            steps.append(exec_step(e=e, at=r.randrange(len(on[e])), inp=r.choice([1, 2]), c=r.choice([-1, 0, 0, 1]), **kw))
        held = set()
        comp(0)
        comp(1)
        for _ in range(length):
            c = r.random()
            e = r.randrange(2)
            if c < .35:
                k = r.randrange(5)
                held.add(k)
                run(e, keep=k)
            elif c < .5:
                for _ in range(r.randint(1, 3)):
                    run(e)
            elif c < .6:
                steps.append({"op": "newin", "in": r.choice([1, 2]), "as": r.randint(1, 4)})
            elif c < .68:
                steps.append({"op": r.choice(["ctxclear", "newctx"]), "c": r.randrange(2)})
            elif c < .76:
                if r.random() < .5:
                    steps.append({"op": "newengine", "e": e})
                comp(e)
            elif c < .8 and kinds[e] == "batch":
                steps.append({"op": "execall", "e": e, "in": 1, "api": "ret", "c": 0})
            elif held:
                steps.append({"op": "reread", "keep": r.choice(sorted(held))})
        for k in sorted(held):
            steps.append({"op": "reread", "keep": k})
        steps += [{"op": "newin", "in": 1, "as": 3}, {"op": "newin", "in": 2, "as": 4}, {"op": "newctx", "c": 0}, {"op": "newctx", "c": 1},
                  {"op": "newengine", "e": 0}, {"op": "newengine", "e": 1}]
        for k in sorted(held):
            steps.append({"op": "reread", "keep": k})
        out.append(scen(progs, [x or [{"t": "i32", "v": [0, 0, 0, 0]}] for x in rows], steps, engines, ctxs=(64, 4096)))
    return out


class VarGen(FnGen):
    """leaves are mostly variables, so that the same value is read again after a function used it"""

    def fleaf(self, t):
        vs = [n for n, vt, _ in self.vars if vt == t]
        if vs and self.r.random() < .75:
            return {"k": "ref", "n": self.r.choice(vs)}
        return super().fleaf(t)


def again(seed, n):
    """constants, arguments and variables stored before and after functions used them, executed
    again and again on changing arguments"""
    out = []
    for i in range(n):
        r = rng(seed, "again", i)
        progs = []
        g = VarGen(r)
        for _ in range(r.choice([1, 2])):
            g.vars = []
            items = []
            tag = 0
            ts = [r.choice(KEPT + NUMS) for _ in range(r.randint(3, 5))]
            for j, t in enumerate(ts):
                c = r.random()
                e = g.constant(t, g.newpayload(t)) if c < .5 else g.newarg(t, g.newpayload(t)) if c < .9 else g.fexpr(t, 1)
                items.append(("v%d" % j, 0, e))
                g.vars.append(("v%d" % j, t, 0))
            for _ in range(r.randint(2, 4)):
                t = r.choice(ts if r.random() < .7 else KEPT + ["u32", "u64"])
                tag += 1
                items.append(fn("st_" + t, OUT, const("u32", tag), g.fexpr(t, 2)))
                if r.random() < .4:
                    items.append(("v%d" % ts.index(t) if t in ts else "u%d" % tag, 0, g.fexpr(t, 2)))
                for j, t in enumerate(ts):
                    if r.random() < .6:
                        tag += 1
                        items.append(fn("st_" + t, OUT, const("u32", tag), {"k": "ref", "n": "v%d" % j}))
            progs.append(seq(items))
        rows = [g.inputs()]
        for _ in range(2):
            rows.append([{"t": t, "v": g.newpayload(t)} for t, _ in g.ins])
        rows = [x or [{"t": "i32", "v": [0, 0, 0, 0]}] for x in rows]
        b = len(progs) > 1 or r.random() < .4
        steps = [compile_step(0, range(len(progs)))]
        for _ in range(r.randint(4, 7)):
            c = r.random()
            if c < .25:
                steps.append({"op": "newin", "in": 1, "as": r.randint(1, 3)})
            if b and r.random() < .3:
                steps.append({"op": "execall", "e": 0, "in": r.choice([1, 2]), "api": "void", "c": r.choice([-1, 0])})
            else:
                steps.append(exec_step(at=r.randrange(len(progs)) if b else 0, inp=r.choice([1, 1, 2]), api="void", c=r.choice([-1, 0, 0, 1])))
        out.append(scen(progs, rows, steps, [ENG("batch" if b else "single", chunk=r.choice([1, 64, 4096]))], ctxs=(64, 4096)))
    return out

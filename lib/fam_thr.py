"""Scenario families about concurrent executions."""
import json
import core
from gen import *
from fam_lang import rng, scen, effects, statements
import fam_fn as B
import fam_dsl as D


def thr(order, ts, strict=0):
    return {"op": "threads", "order": order, "t": ts, "strict": strict}


def model(out, seed, limit, per=40):
    """the schedules TLC printed for ThreadsMC, each enforced on real threads"""
    prog = core.printed(out, "PROGS")[0][1]
    orders = [[t - 1 for t in h] for _, h in core.printed(out, "SCHED")]
    total = len(orders)
    if limit and total > limit:
        orders = rng(seed, "sched", total).sample(orders, limit)
    engines = [ENG(), ENG(), ENG("batch")]
    pre = [compile_step(0, [0]), compile_step(1, [1]), compile_step(2, [0, 1, 2])]
    scs = []
    for k in range(0, len(orders), per):
        ts = [{"ctx": 64 if t["ctx"] else 0, "runs": [{k: x[k] for k in ("e", "at", "in", "api")} for x in t["runs"]]}
              for t in prog["threads"]]
        scs.append(scen(prog["progs"], prog["ins"], pre + [thr(o, ts, 1) for o in orders[k:k + per]], [dict(e) for e in engines]))
    return scs, total, len(orders)


def sprinkle(r, g, n):
    """scheduling points between the statements of every sequence of a program"""
    k = 0
    if n["k"] == "no" and not n["iso"]:
        a, v = [], []
        for x, nm in zip(n["a"], n["v"]):
            while r.random() < .5 and len(g.ins) < 16:
                a.append(fn("st_i64", OUT, const("u32", g.newtag()), fn("sync", EA, g.newarg("i64", enc("i64", r.randint(-99, 99))))))
                v.append({"n": "", "c": 0})
                k += 1
            a.append(x)
            v.append(nm)
        n["a"], n["v"] = a, v
    for key in ("a", "b"):
        c = n.get(key)
        for x in c if isinstance(c, list) else [c] if isinstance(c, dict) else []:
            if isinstance(x, dict):
                k += sprinkle(r, g, x)
    return k


class TGen(Gen):
    """integer expressions may be scheduling points"""
    def leaf(self, t):
        if t == "i64" and self.r.random() < .5 and len(self.ins) < 15:
            self.syncs += 1
            return fn("sync", EA, self.newarg("i64", enc("i64", self.r.randint(-99, 99))))
        return Gen.leaf(self, t)


def orders(seed, n):
    """random programs with scheduling points anywhere, on random engines, in random orders"""
    out = []
    for i in range(n):
        r = rng(seed, "ord", i)
        g = TGen(r)
        g.syncs = 0
        g.effects, g.errors = True, r.random() < .5
        ps, ret = [], []
        for _ in range(3):
            g.vars = []
            if r.random() < .7:
                p = seq(g.stmts(r.randint(1, 4), r.randint(1, 2), ["i64", "i64", "string", "i64list", r.choice(NUMS)]))
                g.syncs += sprinkle(r, g, p)
                ret.append("void")
            else:
                t = r.choice(["i64", "i64list", "string", "f64"])
                p = g.expr(t, 3)
                ret.append("ret")
            ps.append(p)
        ins = [g.inputs()]
        legal = [{"t": x["t"], "v": x["v"]} for x in ins[0]]
        engines = [ENG(chunk=r.choice([1, 64, 4096])) for _ in range(3)] + [ENG("batch", chunk=r.choice([1, 64, 4096]))]
        st = [compile_step(j, [j]) for j in range(3)] + [compile_step(3, [0, 1, 2])]
        for _ in range(3):
            nt = r.choice([2, 2, 3, 4])
            ts = []
            for t in range(nt):
                runs = []
                for _ in range(r.choice([1, 2, 2, 3])):
                    k = r.randrange(3)
                    if r.random() < .5:
                        x = {"e": k, "at": 0}
                    else:
                        x = {"e": 3, "at": k}
                        if r.random() < .3 and "void" in ret:
                            x["all"] = 1
                    runs.append({**x, "in": 1, "api": "void" if x.get("all") and "ret" not in ret else
                                 ("ret" if x.get("all") else ret[k])})
                ts.append({"ctx": r.choice([0, 1, 64, 4096]), "runs": runs})
            o = [r.randrange(nt) for _ in range(r.choice([8, 20, 40]))]
            if r.random() < .4:     # bursts
                o = [t for t in o for _ in range(r.choice([1, 1, 3]))]
            st.append(thr(o, ts))
        out.append(scen(ps, ins, st, engines))
    return out


def threaded(scs, seed, key, reps, nt=4):
    """the executions of single-threaded scenarios, performed by several threads at once"""
    out = []
    for i, s in enumerate(scs):
        r = rng(seed, "thr", key, i)
        head = [x for x in s["steps"] if x["op"] == "compile"]
        runs, stop = [], False
        if len({x["e"] for x in head}) != len(head):
            continue
        for x in s["steps"]:
            if x["op"] == "exec":
                runs.append({"e": x["e"], "at": x["at"], "in": x["in"], "api": x["api"]})
            elif x["op"] == "execall":
                runs.append({"e": x["e"], "at": 0, "in": x["in"], "api": x["api"], "all": 1})
        if not runs:
            continue
        ts = []
        for t in range(nt):
            rs = [dict(x, rep=reps) for x in (runs if len(runs) <= 12 else r.sample(runs, 12))]
            if r.random() < .7:
                r.shuffle(rs)
            ts.append({"ctx": r.choice([0, 64, 4096]), "runs": rs})
        t = dict(s)
        t["steps"] = head + [thr([], ts)]
        out.append(t)
    return out


def stress(seed, m, reps):
    """programs of every kind, run freely"""
    r = rng(seed, "stress")
    scs = []
    scs += threaded(effects(seed, m, key="teff"), seed, "e", reps)
    scs += threaded(statements(seed, m, key="tst"), seed, "s", reps)
    scs += threaded(D.pipelines(seed, m, key="tpl", bad=0), seed, "p", reps)
    for k, f in (("comp", lambda: B.compositions(seed + 7, m)), ("scal", lambda: B.scalars(seed + 7, 1, 1)), ("str", lambda: B.strings(seed + 7, 1)),
                 ("list", lambda: B.lists(seed + 7, 1)), ("grp", lambda: B.groups(seed + 7, 1)), ("elem", lambda: B.elementwise(seed + 7, 1))):
        x = f()
        scs += threaded(r.sample(x, min(len(x), m)), seed, k, reps)
    return scs

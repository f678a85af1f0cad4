"""Scenario families about program trees as objects: made, cloned, extended, located, printed,
compiled and destroyed in any order."""
import copy, json
import core
from gen import *
from fam_lang import rng, scen, nodes, mutated
from fam_diag import located, source
from fam_engine import any_prog


def model(out, seed, limit):
    """scenarios from the transitions of TreeMC"""
    prog = core.printed(out, "PROGS")[0][1]
    loops, moves = {}, []
    for (chg,), h in core.printed(out, "EDGE"):
        if chg:
            moves.append(h)
        else:
            loops.setdefault(json.dumps(h[:-1]), []).append(h[-1])
    scs = []

    def there(h):
        t = set()
        for s in h:
            if s["op"] == "tree":
                t.add(s["tr"])
            elif s["op"] == "clone":
                t.add(s["to"])
            elif s["op"] == "drop":
                t.discard(s["tr"])
        return sorted(t)

    def probe(h):
        st = [exec_step(api="void")]
        for i in there(h):
            st += [{"op": "print", "tr": i, "at": [], "pre": ""}, {"op": "compile", "e": 0, "tr": [i]}, exec_step(api="void")]
        # the other one again, when the first is gone
        if len(there(h)) == 2:
            st += [{"op": "drop", "tr": 1}, {"op": "print", "tr": 2, "at": [], "pre": ""}, {"op": "compile", "e": 0, "tr": [2]}, exec_step(api="void")]
        return st
    for h, ops in loops.items():
        scs.append(json.loads(h) + ops)
    for h in moves:
        scs.append(h + probe(h))
    total = len(scs)
    if limit and total > limit:
        scs = rng(seed, "treemc").sample(scs, limit)
    return [scen(prog["progs"], [prog["ins"]], s, [ENG("single")]) for s in scs], total


def kids(n):
    k = n["k"]
    if k == "u":
        return [("a",)]
    if k == "b":
        return [("a",), ("b",)]
    if k in ("f", "if", "sw", "ib", "no"):
        return [("a", i) for i in range(len(n["a"]))]
    return []


def paths(n, at=()):
    """(path as the driver takes it, node) of every node"""
    out = [(list(at), n)]
    for i, f in enumerate(kids(n)):
        m = n
        for s in f:
            m = m[s]
        out += paths(m, at + (i,))
    return out


def sub(n, at):
    for i in at:
        for s in kids(n)[i]:
            n = n[s]
    return n


def any_tree(r, g):
    c = r.random()
    if c < .3:
        return any_prog(r, g)[0]
    if c < .7:
        return seq(g.stmts(r.randint(1, 4), 2, r.sample(NUMS + ["string", "i32list"], 2)))
    g.vars = []
    return g.expr(r.choice(NUMS + ["string", "f64list", "u8list", "stringlist"]), 3)


def histories(seed, n, length, key="tree"):
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        g = Gen(r)
        g.effects = r.random() < .6
        g.errors = r.random() < .3
        x = source(r)
        dense = r.choice([0, .6, 1])
        progs, st = [], []
        slot = {}              # what is where
        live = [None] * 2      # whether an engine has a program, as far as is known here
        batch = r.random() < .4
        # what is appended: the last operands of incomplete constructs, and statements
        def prog(p):
            progs.append(p)
            return len(progs) - 1

        def new(k):
            g.vars = []
            p = any_tree(r, g)
            if len(nodes(p)) > 40:
                return new(k)
            p = located(r, p, len(x), dense)
            # take the last operand of a construct away, to be appended later
            rest = None
            cand = [(a, m) for a, m in paths(p) if m["k"] in ("f", "if", "sw", "no") and m["a"]]
            if cand and r.random() < .5:
                a, m = r.choice(cand)
                m = sub(p, a)
                e = m["a"].pop()
                v = m["v"].pop() if m["k"] == "no" else {"n": "", "c": 0}
                rest = (a, prog(e), v)
            slot[k] = p
            st.append({"op": "tree", "tr": k, "p": prog(copy.deepcopy(p))})
            return rest

        def complete(k, rest):
            a, e, v = rest
            m = sub(slot[k], a)
            s = {"op": "append", "tr": k, "at": a, "p": e}
            if m["k"] == "no":
                s["n"], s["c"] = v["n"], v["c"]
                m["v"].append(v)
            m["a"].append(copy.deepcopy(progs[e]))
            st.append(s)

        def run(k):
            e = r.randrange(2)
            if batch:
                ks = [k] + r.sample([q for q in slot if q != k], r.randint(0, min(2, len(slot) - 1)))
                r.shuffle(ks)
                st.append({"op": "compile", "e": e, "tr": ks, "diag": 1})
                for j in range(len(ks)):
                    st.append(exec_step(e=e, at=j, api="void" if typeless(slot[ks[j]]) else "ret"))
            else:
                st.append({"op": "compile", "e": e, "tr": [k], "diag": 1})
                st.append(exec_step(e=e, api="void" if typeless(slot[k]) else "ret"))
            live[e] = slot[k]["k"]

        rest = {}
        for _ in range(length):
            c = r.random()
            have = list(slot)
            if not have or c < .15:
                k = r.randrange(4)
                rest.pop(k, None)
                q = new(k)
                if q:
                    rest[k] = q
            elif c < .4:
                k = r.choice(have)
                to = r.randrange(4)
                a = [] if r.random() < .7 else r.choice(paths(slot[k]))[0]
                st.append({"op": "clone", "tr": k, "at": a, "to": to})
                slot[to] = copy.deepcopy(sub(slot[k], a))
                q = rest.get(k) if not a else None
                rest.pop(to, None)
                if q:
                    rest[to] = q
            elif c < .55:
                k = r.choice(have)
                if k in rest:
                    complete(k, rest.pop(k))
                else:
                    # one statement or operand more, perhaps one too many
                    cand = [(a, m) for a, m in paths(slot[k]) if m["k"] in ("no", "no", "f", "if", "sw")]
                    nos = [(a, m) for a, m in cand if m["k"] == "no"]
                    if not cand:
                        continue
                    a, m = r.choice(nos if nos and r.random() < .8 else cand)
                    h = Gen(r)
                    h.ins = g.ins
                    v = {"n": r.choice(["", "v0", "q", "w"]), "c": r.randint(0, 1)}
                    e = located(r, h.leaf(r.choice(NUMS + ["string"])) if r.random() < .7 or not g.effects else fn("st_i32", OUT, const("u32", 77), h.leaf("i32")), len(x), dense)
                    if v["n"] == "":
                        v["c"] = 0
                    complete(k, (a, prog(e), v))
            elif c < .65:
                k = r.choice(have)
                st.append({"op": "drop", "tr": k})
                del slot[k]
                rest.pop(k, None)
            elif c < .72 and dense:
                k = r.choice(have)
                a = r.choice(paths(slot[k]))[0]
                b = r.randint(1, len(x))
                p = [b, min(len(x) + 1, b + r.randint(1, 9))]
                st.append({"op": "setloc", "tr": k, "at": a, "p": p})
                sub(slot[k], a)["p"] = p
            elif c < .82:
                k = r.choice(have)
                a = [] if r.random() < .8 else r.choice(paths(slot[k]))[0]
                st.append({"op": "print", "tr": k, "at": a, "pre": r.choice(["", "", "  "])})
            else:
                run(r.choice(have))
        for k in sorted(slot):
            st.append({"op": "print", "tr": k, "at": [], "pre": ""})
            run(k)
        sc = scen(progs, [g.inputs()], st, [ENG("batch" if batch else "single", fp=0)] * 2, src=x)
        out.append(sc)
    return out


def typeless(p):
    return p["k"] == "no"

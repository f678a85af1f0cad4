"""Scenario families about the arena, the registry and artifact bytes."""
import json, random
import core
from gen import *
from fam_lang import rng, scen


# ---------------------------------------------------------------- arena
def arena_mc(out, seed, limit):
    hs = sorted({json.dumps(h) for _, h in core.printed(out, "HIST")})
    n = len(hs)
    if limit and limit < n:
        hs = rng(seed, "arenamc").sample(hs, limit)
    return [{"kind": "arena", "chunk": 32, "steps": json.loads(h) + [{"op": "destroy"}]} for h in hs], n


def arena_random(seed, n, length, key="arena"):
    out = []
    for k in range(n):
        r = rng(seed, key, k)
        chunk = r.choice([0, 1, 8, 16, 64, 100, 256, 4096, 4096, 65536])
        sizes = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 63, 64, 65, 100, 255, 1000, max(chunk - 1, 0), chunk, chunk + 1,
                 chunk // 2, max(chunk - 8, 0), 5000, 70000]
        steps, oid = [], 0
        for _ in range(length):
            c = r.random()
            if c < 0.62:
                steps.append({"op": "alloc", "n": r.choice(sizes) if r.random() < .7 else r.randint(0, 200),
                              "al": r.choice([0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 4096])})
            elif c < 0.85:
                oid += 1
                steps.append({"op": "create", "c": r.choice(["obj", "obj", "big", "triv"]), "id": oid})
            elif c < 0.9:
                steps.append({"op": "huge", "n": r.choice([48, 55, 60, 62])})
            else:
                steps.append({"op": "reset"})
        if r.random() < .5:
            steps.append({"op": "reset"})
        steps.append({"op": "destroy"})
        out.append({"kind": "arena", "chunk": chunk, "steps": steps})
    return out


# ---------------------------------------------------------------- registry
FAMS = {  # family: (params, ret, kinds)
    "a": (["i32"], "i32", ["ro", "ro", "comm", "raw"]),
    "b": (["i32"], "i64", ["ro", "raw"]),
    "d": (["i64"], "i32", ["ro", "raw"]),
    "e": (["i32", "i32"], "i32", ["ro", "raw"]),
    "m": (["i32", "i32"], "i32", ["comm", "comm", "ro"]),
    "ax": (["i32"], "i32", ["roctx", "roctx", "commctx"]),
    "mx": (["i32", "i32"], "i32", ["commctx", "commctx", "roctx"]),
    "s": (["ptr", "i32"], "void", ["store"]),
    "z": ([], "i32", ["ro", "raw"]),
    "zx": ([], "i32", ["roctx"]),
    "q": (["string"], "i32", ["ro"]),
    "n": (["i32"], "i32", ["intr"]),
}


class RegMirror:
    """which registration the generator believes current; steers, decides nothing"""

    def __init__(self, user):
        self.m = {}
        if user:
            self.m[("id_i32", ("i32",))] = ("id", "i32", 0, 1)

    def reg(self, st):
        fam, ctx = st["impl"][:-1], st["kind"] in ("roctx", "commctx")
        ks = [((st["name"], tuple(st["params"])), 1 if ctx else 0)]
        if ctx:
            ks.append(((st["name"], tuple(st["params"] + ["ptr"])), 0))
        if st["impl"] == "null" or (not st["ov"] and any(k in self.m for k, _ in ks)):
            return
        for k, c in ks:
            self.m[k] = (fam, st["ret"], c, 0 if st["kind"] == "intr" else 1)


def reg_step(r, rid, names):
    fam = r.choice(list(FAMS))
    params, ret, kinds = FAMS[fam]
    kind = r.choice(kinds)
    params = list(params)
    if fam in ("ax", "mx", "zx") and r.random() < .3:        # the context as an explicit parameter
        params, kind = params + ["ptr"], r.choice(["ro", "comm"] if fam == "mx" else ["ro"])
    impl = "null" if r.random() < .05 else fam + str(r.randrange(4))
    return {"op": "reg", "r": rid, "name": r.choice(names), "params": params, "ret": ret, "kind": kind, "impl": impl,
            "ov": int(r.random() < .5)}


def reg_prog(r, mir, names):
    budget = {"ec7": 0}

    def leaf(t):
        if t == "i32":
            return const("i32", r.choice([0, 1, 2, 3, 7, 7, -4, 9])), 9
        if t == "i64":
            return const("i64", r.randint(-5, 9)), 9
        if t == "string":
            return const("string", [97] * r.randint(0, 4)), 9
        return {"k": r.choice(["ec", "ec", "out"])}, 0

    def expr(t, depth, top=False):
        c = [k for k, e in mir.m.items() if e[1] == t]
        if depth <= 0 or not c or (not top and r.random() < .25):
            if t == "void":
                return None
            return leaf(t)
        if r.random() < .04:                                  # a call that may well not exist
            k = (r.choice(names), tuple(r.choice(["i32", "i64", "ptr", "string"]) for _ in range(r.randint(0, 2))))
        else:
            k = r.choice(c)
        fam = mir.m.get(k, ("a",))[0]
        args, bs = [], []
        for pt in k[1]:
            if pt == "ptr":
                n, b = {"k": "out" if fam == "s" else "ec"}, 0
            else:
                n, b = expr(pt, depth - 1)
            args.append(n)
            bs.append(b)
        b = max([1] + bs)
        return fn(k[0], *args), max(b * 110 + 9, (b + 1) * (b + 1) + 9)
    for _ in range(50):
        t = r.choice(["i32", "i32", "i32", "i64", "void"])
        x = expr(t, r.choice([1, 1, 2, 3]), True)
        if x and x[1] < 2_000_000_000:
            return x[0], t
    return const("i32", 1), "i32"


def call_keys(n, mir, types=None):
    """the keys a program calls, by the mirror's view of types"""
    out = []

    def ty(x):
        if x["k"] == "c":
            return x["t"]
        if x["k"] in ("ec", "out"):
            return "ptr"
        k = (x["n"], tuple(ty(a) for a in x["a"]))
        out.append(k)
        return mir.m[k][1] if k in mir.m else "none"
    ty(n)
    return out


def registry(seed, n, length):
    out = []
    for i in range(n):
        r = rng(seed, "registry", i)
        names = r.choice([["f"], ["f", "g"], ["f", "g", "f f", "f(i32", ""], ["f", "\u00e9t\u00e9", "f(i32)"]])
        users = [int(r.random() < .3), int(r.random() < .3)]
        st = [{"op": "newreg", "r": k, "user": users[k]} for k in (0, 1)]
        mir = [RegMirror(u) for u in users]
        progs, live, blobs = [], {}, {}
        for _ in range(length):
            c, rid = r.random(), r.choice([0, 0, 0, 1])
            if c < .45:
                s = reg_step(r, rid, names)
                st.append(s)
                mir[rid].reg(s)
                if rid == 0 and r.random() < .35:             # the same function, perhaps another number, in the other
                    s = dict(s, r=1)
                    if s["impl"] != "null":
                        s["impl"] = s["impl"][:-1] + str(r.randrange(4))
                    st.append(s)
                    mir[1].reg(s)
            elif c < .58:
                ks = list(mir[rid].m) + [(r.choice(names), ("i32",))]
                k = r.choice(ks)
                ps = list(k[1])
                if r.random() < .2:
                    ps = r.choice([ps + ["ptr"], ps[:-1], ps[::-1], ["i64"]])
                st.append({"op": "lookup", "r": rid, "name": k[0], "params": ps})
            elif c < .85:
                p, t = reg_prog(r, mir[rid], names)
                progs.append(p)
                e = r.randrange(3)
                st.append(compile_step(e, [len(progs) - 1], r=rid))
                live[e] = (p, t, dict(mir[rid].m))
                st += [exec_step(e, 0, 1, "void" if t == "void" else r.choice(["ret", "ret", "void"]) if t != "string" else "ret",
                                 r.choice([-1, 0]))]
            elif c < .93 and live:
                e = r.choice(list(live))
                st.append(exec_step(e, 0, 1, "void" if live[e][1] == "void" else "ret", r.choice([-1, 0])))
            elif live:
                e = r.choice(list(live))
                if live[e][2] is None:
                    continue
                m = RegMirror(0)
                m.m = live[e][2]
                ks = call_keys(live[e][0], m)
                tgt = mir[rid].m
                if any(k not in m.m for k in ks):
                    continue
                if any(k in tgt and tgt[k][3] and tgt[k][:3] != m.m[k][:3] for k in ks if m.m[k][3]):
                    continue                                   # another calling convention: not a provider of the function
                st.append({"op": "save", "e": e, "b": len(st), "null": 0, "pre": ""})
                e2 = r.randrange(3)
                st.append({"op": "load", "e": e2, "b": st[-1]["b"], "r": rid})
                t = live[e][1]
                if all(k in tgt and tgt[k][3] for k in ks if m.m[k][3]):
                    live[e2] = (live[e][0], t, None)           # a loaded program cannot be saved again
                    st.append(exec_step(e2, 0, 1, "void" if t == "void" else "ret", r.choice([-1, 0])))
        if r.random() < .6:
            st.append({"op": "delreg", "r": 0})
            for e in live:
                st.append(exec_step(e, 0, 1, "void" if live[e][1] == "void" else "ret", -1))
        out.append(scen(progs, [[{"t": "i32", "v": [1, 0, 0, 0]}]], st, [ENG("single", save=1) for _ in range(3)], ctxs=(4096,)))
    return out


# ---------------------------------------------------------------- artifact bytes
def u32b(x):
    return list((x & 0xffffffff).to_bytes(4, "little"))


def art_progs(r):
    st = lambda: seq([fn("st_i32", OUT, const("u32", 9), arg("i32", 0))])
    return [bi("+", arg("i32", 0), const("i32", r.randint(1, 99))), fn("err_i64", arg("i64", 1), const("i32", 7)),
            st(), bi("+", const("string", [97, 0, 98]), arg("string", 2)), fn("id_u8list", const("u8", 1)) if False else arg("i64", 1)]


ART_INS = [[{"t": "i32", "v": enc("i32", 41)}, {"t": "i64", "v": enc("i64", -3)}, {"t": "string", "v": [1, 2, 200]}]]


def art_base(r, kind):
    """a scenario that saves artifact 0 from engine 0, with engine 1 holding another program"""
    ps = art_progs(r)
    if kind == "single":
        mine, other = [r.choice([0, 1, 3, 4])], [r.choice([0, 3, 4])]
    else:
        mine, other = r.sample([0, 1, 2, 3, 4], r.choice([1, 2, 3])), r.sample([0, 1, 3], 2)
    k2 = "batch" if kind == "single" else "single"
    engines = [ENG(kind, save=1), ENG(kind), ENG(kind), ENG(k2), ENG(k2, save=1)]
    st = [compile_step(0, mine), {"op": "save", "e": 0, "b": 0, "null": 0, "full": 1},
          compile_step(1, other), compile_step(3, [0])]
    return ps, st, engines, mine, other


def art_runs(ps, e, idx):
    return [exec_step(e, at, 1, "void" if p == 2 else "ret") for at, p in enumerate(idx)]


def art_mutations(r, nmine, kind):
    """(edits, relax) pairs"""
    s = lambda f, v, o=0: {"k": "set", "f": f, "o": o, "v": v}
    ins = lambda f, v, o=0: {"k": "ins", "f": f, "o": o, "v": v}
    dl = lambda f, n, o=0: {"k": "del", "f": f, "o": o, "n": n}
    big = [[255] * 4, [255, 255, 255, 127], [0, 0, 0, 128], u32b(1 << 24), [0, 0, 0, 1]]
    c = r.random()
    rel = r.randrange(8)
    if c < .12:
        return [s("magic", [r.randrange(256)], r.randrange(4))], rel
    if c < .2:
        return [s("ver", u32b(r.choice([0, 1, 3, 258, 2 << 8, 1 << 31])))], rel
    if c < .45:
        k = r.choice("123")
        m = r.random()
        if m < .35:      # another content
            return [{"k": "xor", "f": "s" + k, "o": r.randrange(6), "n": r.choice([1, 32, 255])}], rel
        if m < .55:      # longer, consistently
            return [{"k": "xor", "f": "l" + k, "o": 0, "n": 0}, s("l" + k, u32b(1)), {"k": "ins", "f": "s" + k, "v": [120]}], rel
        if m < .7:
            return [s("l" + k, r.choice(big))], 7
        if m < .85:
            return [{"k": "xor", "f": "l" + k, "o": r.choice([0, 0, 1, 3]), "n": r.choice([1, 2, 128, 255])}], 7
        return [s("l" + k, u32b(0))], 7
    if c < .55:
        return [s("mode", [r.choice([0, 1, 2, 255])])], rel if r.random() < .5 else 0
    if c < .62:
        return [s("fp", [r.choice([0, 1, 2, 128, 255])])], rel
    if c < .74:
        m = r.random()
        if m < .5:
            return [s("n", u32b(r.choice([0, nmine + 1, nmine + 2, 255, 256])))], 0
        if m < .7:
            return [s("n", r.choice(big))], 0
        return [s("n", u32b(nmine + 1)), ins("ret", [r.choice([1, 8, 12, 255])])], 0
    if c < .8:
        return [s("ret", [r.choice([0, 24, 25, 31, 128, 255])], r.randrange(nmine))], 0
    if c < .88:
        m = r.random()
        if m < .4:
            return [s("osz", r.choice(big) + r.choice([[0] * 4, [255] * 4, [1, 0, 0, 0], [0, 0, 0, 128]]))], 0
        if m < .7:
            return [{"k": "xor", "f": "osz", "o": r.choice([0, 0, 1, 2, 7]), "n": r.choice([1, 2, 3, 255])}], 0
        return [s("osz", [255] * 8)], 0
    if c < .97:
        m = r.random()
        pay = [r.randrange(256) for _ in range(r.choice([0, 1, 5, 40]))]
        ext = u32b(r.choice([0, 1, 77, 1 << 31])) + u32b(len(pay)) + pay
        if m < .4:       # extensions nobody knows: still the same artifact
            k = r.choice([1, 2, 3])
            return [s("extc", u32b(k)), ins("foot", ext * k)], 0
        if m < .5:
            return [s("extc", u32b(2)), ins("foot", ext)], 0
        if m < .6:
            return [s("extc", u32b(1)), ins("foot", u32b(1) + r.choice(big))], 0
        if m < .75:
            return [s("extc", r.choice(big))], 0
        if m < .85:
            return [ins("foot", ext)], 0
        return [s("extc", u32b(1)), ins("foot", ext[:-1] if pay else ext[:7])], 0
    return [r.choice([s("foot", [r.randrange(256)], r.randrange(4)), ins("end", [0]), ins("end", [74, 70, 67, 69]),
                      dl("foot", 4), dl("foot", 1, 3), dl("magic", 1), ins("magic", [0])])], 7


def art_checks(r, st, ps, b, relax, mine, other, foreign=True):
    """load artifact b into a fresh engine, and into engines holding programs, which keep them if it is refused"""
    st.append({"op": "load", "e": 2, "b": b, "relax": relax})
    st.append({"op": "newengine", "e": 2})
    runs = art_runs(ps, 1, other)
    st.append({"op": "load", "e": 1, "b": b, "relax": relax, "guard": len(runs) + 0})
    st += runs
    st.append(compile_step(1, other))
    if foreign:
        st.append({"op": "load", "e": 3, "b": b, "relax": relax, "guard": 1})
        st.append(exec_step(3, 0, 1, "ret"))
        st.append(compile_step(3, [0]))


def art_fields(seed, n):
    out = []
    for i in range(n):
        r = rng(seed, "art", i)
        kind = r.choice(["single", "batch"])
        ps, st, engines, mine, other = art_base(r, kind)
        for j in range(6):
            ed, relax = art_mutations(r, len(mine), kind)
            if j == 5 and r.random() < .5:               # two at once
                ed = ed + art_mutations(r, len(mine), kind)[0]
                seen, e2 = set(), []
                for x in ed:
                    if x["f"] not in seen:
                        seen.add(x["f"])
                        e2.append(x)
                ed = e2
            st.append({"op": "blob", "b": 1 + j, "from": 0, "edits": ed})
            art_checks(r, st, ps, 1 + j, relax, mine, other, r.random() < .4)
        st.append({"op": "blob", "b": 9, "from": 0, "edits": []})
        st.append({"op": "load", "e": 1, "b": 9, "relax": 0})
        st += art_runs(ps, 1, mine)
        out.append(scen(ps, ART_INS, st, engines, limit=60))
    return out


def art_relax(seed):
    """every combination of foreign strings and disabled checks"""
    out = []
    for kind in ("single", "batch"):
        for mask in range(8):
            r = rng(seed, "artrelax", kind, mask)
            ps, st, engines, mine, other = art_base(r, kind)
            ed = [{"k": "xor", "f": "s" + k, "o": 0, "n": 1} for j, k in enumerate("123") if mask >> j & 1]
            st.append({"op": "blob", "b": 1, "from": 0, "edits": ed})
            for relax in range(8):
                ok = mask & ~relax == 0
                st.append({"op": "load", "e": 1, "b": 1, "relax": relax})
                st += art_runs(ps, 1, mine if ok else other)
                st.append(compile_step(1, other))
                st.append({"op": "load", "e": 3, "b": 1, "relax": relax})
                st.append(exec_step(3, 0, 1, "ret"))
            out.append(scen(ps, ART_INS, st, engines))
    return out


def art_cuts(seed, n, per):
    """truncations: every position of the header and footer, some of the object"""
    out = []
    for i in range(n):
        r = rng(seed, "artcut", i)
        kind = "single" if i % 2 else "batch"
        ps, st, engines, mine, other = art_base(r, kind)
        for j in range(per):
            k = (i // 2) * per + j
            c = {"k": "cut", "f": "magic", "o": k} if k < 110 else \
                {"k": "cut", "f": "end", "o": -(k - 109)} if k < 125 else {"k": "cut", "pm": r.randrange(1000)}
            st.append({"op": "blob", "b": 1, "from": 0, "edits": [c]})
            art_checks(r, st, ps, 1, 7 if j % 2 else 0, mine, other, False)
        out.append(scen(ps, ART_INS, st, engines))
    return out


def art_noise(seed, n):
    """bytes that never were an artifact, and random edits anywhere"""
    out = []
    for i in range(n):
        r = rng(seed, "artnoise", i)
        kind = r.choice(["single", "batch"])
        ps, st, engines, mine, other = art_base(r, kind)
        for j in range(6):
            if j < 2:
                raw = [74, 70, 67, 65] * r.choice([0, 1]) + [r.choice([0, 0, 1, 2, 255, r.randrange(256)]) for _ in range(r.choice([0, 1, 4, 12, 40, 200]))]
                if r.random() < .5:
                    raw = [74, 70, 67, 65, 2, 0, 0, 0] + raw
                st.append({"op": "blob", "b": 1, "raw": raw, "edits": []})
            else:
                ed = []
                for _ in range(r.choice([1, 1, 2, 4])):
                    k = r.choice(["xor", "xor", "del", "ins"])
                    e = {"k": k, "pm": r.choice([r.randrange(60), r.randrange(60), r.randrange(1000)])}
                    if k == "xor":
                        e["n"] = 1 << r.randrange(8)
                    elif k == "del":
                        e["n"] = r.choice([1, 1, 2, 8])
                    else:
                        e["v"] = [r.randrange(256) for _ in range(r.choice([1, 1, 3]))]
                    ed.append(e)
                st.append({"op": "blob", "b": 1, "from": 0, "edits": ed})
            art_checks(r, st, ps, 1, r.choice([0, 7]), mine, other, r.random() < .3)
        out.append(scen(ps, ART_INS, st, engines))
    return out

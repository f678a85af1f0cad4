"""Scenario families about the built-in functions (doc/function.md).

A table gives, per function, its argument types and a generator of argument rows that stays inside
the documented domain (no integer division by zero, no signed overflow, no out-of-range float to
integer, no NaN where an order is needed).  What a call returns is decided by spec/Builtins.tla.
"""
import struct
from gen import *
from fam_lang import rng, scen, ARGS

NLISTS = [t + "list" for t in NUMS]
UP = {t: t.upper() for t in NUMS}
NAN, INF = float("nan"), float("inf")
LENS = [0, 1, 2, 3, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33]


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return INF if x > 0 else -INF


def sumtype(t):
    return "f64" if t in FLOATS else "i64" if t in SIGNED else "u64"


class V:
    """value makers"""

    def __init__(self, r):
        self.r = r
        self.g = Gen(r)

    def any(self, t):
        return self.g.payload(t)

    def num(self, t, nan=True):
        while True:
            x = self.g.num(t)
            if nan or x == x:
                return x

    def small(self, t):
        """few distinct, exactly summable values"""
        r = self.r
        if t in FLOATS:
            return r.choice([1.0, 2.0, -3.5, 0.25, 7.0, 100.0, -41.0, r.randint(-1000, 1000) / 8])
        lo, hi = irange(t)
        return r.randint(max(lo, -120), min(hi, 120))

    def ordered(self, t):
        """no NaN, no zero of either sign"""
        r = self.r
        if t == "string":
            return self.str()
        if t in FLOATS:
            while True:
                x = self.num(t, False) if r.random() < .5 else float(r.choice([1, 2, 3, -1, -2, 2.5]))
                if t == "f32":
                    x = f32(x)
                if x != 0:
                    return x
        return self.num(t) if r.random() < .5 else r.choice([1, 2, 3, 4, 5, irange(t)[0], irange(t)[1]])

    def str(self):
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3, 4, r.randint(0, 12)])
        al = r.choice([b"ab", b"ab", b"abcAB 01.-_", bytes(range(256)), b"\x00\xff\x80\x7f"])
        return [r.choice(al) for _ in range(n)]

    def n(self):
        r = self.r
        return r.choice(LENS) if r.random() < .75 else r.randint(0, 40)

    def lst(self, t, n=None, f=None):
        """payloads"""
        f = f or self.dupy
        n = self.n() if n is None else n
        return [f(t) for _ in range(n)]

    def e(self, t, x):
        return list(x) if t == "string" else enc(t, x)

    def dupy(self, t):
        """an element from a small pool most of the time"""
        r = self.r
        if t == "string":
            return r.choice([[], [97], [98], [97, 98], [97, 0], [0], self.str()])
        if t in FLOATS:
            return enc(t, r.choice([1.0, 2.0, -1.5, 0.1, INF, -INF, 3.0, self.num(t)]))
        return enc(t, r.choice([0, 1, 2, 3, irange(t)[0], irange(t)[1], self.num(t)]))

    def ordy(self, t):
        return self.e(t, self.ordered(t))

    def smally(self, t):
        return enc(t, self.small(t))

    def anyy(self, t):
        return enc(t, self.num(t))


# ---------------------------------------------------------------- scalar functions
def rows_exp(v, t):
    r = v.r
    if t in INTS:
        lo, hi = irange(t)
        return [r.choice([x for x in (0, 1, -1, 2, 10, -10, 100, 700, 709, 710, -745, -750, lo, hi, r.randint(-800, 800)) if lo <= x <= hi])]
    b = (88, -104) if t == "f32" else (709, -745)
    return [r.choice([0.0, -0.0, 1.0, -1.0, INF, -INF, NAN, 1e-20, r.uniform(-1, 1), r.uniform(-20, 20), r.uniform(b[1], b[0]),
                      b[0] + 2.0, b[1] - 3.0, 1e30])]


def rows_log(v, t):
    r = v.r
    if t in INTS:
        lo, hi = irange(t)
        return [r.choice([x for x in (0, 1, 2, 8, 10, 1000, -1, lo, hi, r.randint(1, 100), r.randint(1, hi), 1 << 31, (1 << 53) + 1) if lo <= x <= hi])]
    lim = (-44, 38) if t == "f32" else (-320, 308)
    return [r.choice([0.0, -0.0, 1.0, -1.0, INF, -INF, NAN, 2.0, 10.0, 1024.0, 0.001, r.uniform(0.9, 1.1), r.uniform(0, 100), 10 ** r.uniform(*lim),
                      1 + 2.0 ** -23, 1 - 2.0 ** -24, 5e-324 if t == "f64" else 1e-45, -r.uniform(0, 10)])]


def rows_trig(v, t):
    r = v.r
    x = r.choice([0.0, -0.0, INF, -INF, NAN, r.uniform(-1e-4, 1e-4), r.uniform(-4, 4), r.uniform(-100, 100), r.uniform(-1e6, 1e6),
                  3.141592653589793 * r.randint(-9, 9) / 4, 1e-300 if t == "f64" else 1e-40])
    return [x]


def rows_round(v, t):
    r = v.r
    p = 23 if t == "f32" else 52
    return [r.choice([0.0, -0.0, INF, -INF, NAN, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999997 if t == "f32" else 0.49999999999999994,
                      2.0 ** p + 1, 2.0 ** (p - 1) + 0.5, -(2.0 ** (p - 1)) - 0.5, 2.0 ** p - 0.5, r.uniform(-3, 3), r.randint(-9, 9) + 0.5,
                      r.uniform(-1e6, 1e6), 1e-40, 1e30, float(r.randint(-100, 100)), v.num(t)])]


def rows_sqrt(v, t):
    return [v.r.choice([0.0, -0.0, INF, -INF, NAN, 4.0, 2.0, 0.25, -1.0, 1e-40, abs(v.num(t)), v.r.uniform(0, 1e6)])]


def rows_abs(v, t):
    if t in FLOATS:
        return [v.num(t)]
    while True:
        x = v.num(t)
        if x != irange(t)[0]:
            return [x]


def rows_minmax(v, t, _u):
    if t in FLOATS:
        return [v.num(t, False), v.num(t, False)]
    return [v.num(t), v.num(t)]


def rows_powi(v, t, _e):
    r = v.r
    import math
    top = 120 if t == "f32" else 1000
    if t in INTS:
        x = r.choice([0, 1, -1, 2, -2, 3, 7, -10, r.randint(-1000, 1000), v.num(t)])
        cap = 53
    else:
        x = r.choice([0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 1.5, -1.1, 10.0, INF, -INF, NAN, r.uniform(-10, 10), 1.0001, 0.9999,
                      1 + r.uniform(-1, 1) * 1e-6])
        if t == "f32":
            x = f32(x)
        cap = 70000 if t == "f64" else 3000
    if x != x or x in (0, 1, -1) or abs(x) == INF:
        e = r.choice([0, 1, -1, 2, -2, 3, -3, 7, 100, -101])
    else:
        lim = min(cap, int(top / abs(math.log2(abs(float(x))))) if abs(x) != 1 else cap)
        e = r.choice([0, 1, -1, 2, -2, 3, r.randint(-9, 9), r.randint(-lim, lim), lim, -lim]) if lim else 0
        e = max(-lim, min(lim, e))
    if x == 0 and t in INTS and e < 0:
        e = -e
    return [x, e]


def rows_powf(v, t, _e):
    r = v.r
    sp = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 3.0, -3.0, INF, -INF, NAN, 10.0, 1.5]
    c = r.random()
    if c < .5:
        return [r.choice(sp), r.choice(sp)]
    if c < .75:
        return [r.uniform(0, 10), r.uniform(-30, 30)]
    if c < .9:
        return [10 ** r.uniform(-30, 30), r.choice([0.5, 0.25, -0.5, 1 / 3, 1.0, 1.2, -1.0, 2.0])]
    return [-r.uniform(0, 10), float(r.randint(-20, 20))]


def rows_cast(v, t, to):
    r = v.r
    while True:
        x = v.num(t)
        if t in INTS or to in FLOATS:
            return [x]
        if r.random() < .4:
            lo, hi = irange(to)
            x = r.choice([0.0, -0.0, 0.9, -0.9, 1.5, float(lo), hi * 0.999, r.uniform(lo, hi), 100.7, 2.0 ** 31, 2.0 ** 24 + 1])
            if t == "f32":
                x = f32(x)
        if x == x and abs(x) != INF and irange(to)[0] <= int(x) <= irange(to)[1]:
            return [x]


def numtext(r, t):
    lo, hi = irange(t)
    x = r.choice([0, 1, -1, lo, hi, lo - 1, hi + 1, 10 ** 25, -(10 ** 25), r.randint(lo, hi), r.randint(-300, 300)])
    s = str(x)
    s = r.choice([s, s, s, s, "0" * r.randint(1, 30) + s, s + r.choice(["x", " ", ".5", "e3", "\x00"]), " " + s, "+" + s, "-" + s, "--1", "", "-", "abc", "0x10",
                  "-0", "-00012"])
    return list(s.encode())


class Fam:
    """collects rows per (function, argument types) and turns them into scenarios"""

    def __init__(self, seed, key, per=20):
        self.seed, self.key, self.per = seed, key, per
        self.items = []           # (program builder, argument types, rows of payloads)

    def add(self, name, types, rows, wrap=None, nargs=None):
        self.items.append((name, list(types), rows, wrap))

    def scens(self, lits=2, chunks=(64, 4096), engines=None, shuffle=True):
        r = rng(self.seed, self.key, "scens")
        items = list(self.items)
        if shuffle:
            r.shuffle(items)
        out = []
        for i in range(0, len(items), self.per):
            progs, ins, steps, nl = [], [], [], []
            for name, types, rows, wrap in items[i:i + self.per]:
                w = wrap or (lambda x: x)
                k = len(progs)
                progs.append(w(fn(name, *[arg(t, j) for j, t in enumerate(types)])))
                for row in rows:
                    ins.append([{"t": t, "v": p} for t, p in zip(types, row)] or [{"t": "i32", "v": enc("i32", 0)}])
                    steps.append(exec_step(at=k, inp=len(ins), c=r.choice([-1, 0, 0, 1])))
                if not types:
                    ins.append([{"t": "i32", "v": enc("i32", 0)}])
                    steps.append(exec_step(at=k, inp=len(ins)))
                for row in r.sample(rows, min(lits, len(rows))):
                    # literal and mixed arguments
                    a = []
                    mixed = r.random() < .5
                    for j, (t, p) in enumerate(zip(types, row)):
                        c = Gen.constant(None, t, p)
                        a.append(arg(t, j) if mixed and r.random() < .5 else c)
                    k = len(progs)
                    progs.append(w(fn(name, *a)))
                    ins.append([{"t": t, "v": p} for t, p in zip(types, row)])
                    steps.append(exec_step(at=k, inp=len(ins), c=r.choice([-1, 0, 1])))
            r.shuffle(steps)
            out.append(scen(progs, ins, [compile_step(0, range(len(progs)))] + steps, [(engines or ENG)("batch")], ctxs=chunks))
        return out


def mk(types, row):
    return [p if isinstance(p, list) else enc(t, p) for t, p in zip(types, row)]


def scalars(seed, m, mt):
    """P11: m rows per cheap function, mt per transcendental one"""
    F = Fam(seed, "scalars", 24)
    for f, ts, g, k in (
            [(f, (t,), rows_exp if f == "exp" else rows_log, mt) for f in ("exp", "log", "log2", "log10") for t in ("i32", "i64", "u32", "u64", "f32", "f64")]
            + [(f, (t,), rows_trig, mt) for f in ("sin", "cos", "tan") for t in FLOATS]
            + [(f, (t,), rows_round, m) for f in ("frac", "trunc", "ceil", "floor", "round") for t in FLOATS]
            + [("sqrt", (t,), rows_sqrt, m) for t in FLOATS]
            + [("abs", (t,), rows_abs, m) for t in ("i32", "i64", "f32", "f64")]
            + [(f, (t, t), rows_minmax, m) for f in ("min", "max") for t in NUMS]
            + [("pow", (t, "i32"), rows_powi, mt) for t in ("i32", "i64", "f32", "f64")]
            + [("pow", (t, t), rows_powf, mt) for t in FLOATS]):
        v = V(rng(seed, "sc", f, *ts))
        rows = []
        for _ in range(k):
            row = g(v, *ts)
            rows.append(mk(ts, [f32(x) if t == "f32" else x for t, x in zip(ts, row)]))
        F.add(f, ts, rows)
    for to in NUMS:
        for t in NUMS:
            v = V(rng(seed, "cast", to, t))
            F.add("Cast" + UP[to], (t,), [mk((t,), rows_cast(v, t, to)) for _ in range(m)])
    return F.scens()


def powbig(seed):
    """integer powers with exponents beyond 16 bits, of bases near one"""
    F = Fam(seed, "powbig")
    for t in ("f64", "i32", "i64"):
        v = V(rng(seed, "powbig", t))
        rows = []
        for e in (32767, 32768, 65535, 65536, 65537, 65539, 100000, -40000, -65537, -70000):
            if t == "f64":
                rows += [[enc(t, 1 + s * v.r.uniform(1, 90) * 1e-4), enc("i32", e)] for s in (1, -1)]
            else:
                rows += [[enc(t, x), enc("i32", e)] for x in (1, -1)]
        F.add("pow", (t, "i32"), rows)
    return F.scens()


# ---------------------------------------------------------------- strings
def strings(seed, m):
    """P12"""
    F = Fam(seed, "strings", 20)
    v = V(rng(seed, "strings"))
    r = v.r

    def pair():
        a, b = v.str(), v.str()
        c = r.random()
        if c < .2:
            b = list(a)
        elif c < .35:
            b = a + v.str()
        elif c < .5 and a:
            i = r.randrange(len(a))
            b = a[i:r.randint(i, len(a))]
        elif c < .6 and a:
            b = list(a)
            b[r.randrange(len(b))] ^= 128
        elif c < .65:
            a = [r.choice(b"ab") for _ in range(r.randint(100, 400))]
            b = a[-r.randint(1, 40):] if r.random() < .5 else a + [97]
        return [a, b]
    rows = lambda k: [pair() for _ in range(k)]
    F.add("StringConcat", ("string", "string"), rows(2 * m))
    F.add("StringContains", ("string", "string"), rows(3 * m))
    for op in REL:
        F.add("StringCmp", ("string", "string"), rows(m), wrap=lambda x, op=op: bi(op, x, const("i32", 0)))
    F.add("StringLen", ("string",), [[v.str()] for _ in range(m)])
    for t in NUMS:
        F.add("CastString", (t,), [[v.anyy(t)] for _ in range(m)])
        F.add("CastStringList", (t + "list",), [[v.lst(t, n=r.randint(0, 9), f=v.anyy)] for _ in range(max(2, m // 4))])
        if t in INTS:
            F.add("Cast" + UP[t], ("string",), [[numtext(r, t)] for _ in range(2 * m)])
            F.add("Cast%sList" % UP[t], ("stringlist",), [[[numtext(r, t) for _ in range(r.randint(0, 6))]] for _ in range(max(2, m // 4))])
    out = F.scens()
    # the string operators of the language
    progs, ins, steps = [], [], []
    for k, op in enumerate(REL + ["+"]):
        progs.append(bi(op, arg("string", 0), arg("string", 1)))
        for a, b in rows(m):
            ins.append(ARGS([("string", a), ("string", b)]))
            steps.append(exec_step(at=k, inp=len(ins)))
    out.append(scen(progs, ins, [compile_step(0, range(len(progs)))] + steps, [ENG("batch")]))
    for _ in range(2):
        progs, steps = [], []
        for k in range(28):
            a, b = pair()
            progs.append(bi(r.choice(REL + ["+"]), const("string", a), const("string", b) if k % 2 else arg("string", 0)))
            steps.append(exec_step(at=k))
        out.append(scen(progs, [ARGS([("string", v.str())])], [compile_step(0, range(28))] + steps, [ENG("batch")]))
    return out


# ---------------------------------------------------------------- lists
ALL = LISTS


def u32s(v, ks):
    return [enc("u32", k) for k in ks]


def bits_bytes(bs):
    return [[sum(1 << j for j in range(8) if i + j < len(bs) and bs[i + j])] for i in range(0, len(bs), 8)]


def lists(seed, m):
    """P13"""
    F = Fam(seed, "lists", 20)
    MISS = 0xffffffff
    for L in ALL:
        t = L[:-4]
        v = V(rng(seed, "lists", L))
        r = v.r
        idx = lambda n: r.choice([0, 1, max(0, n - 1), n, n + 1, n + 100, MISS, 1 << 31, r.randint(0, n + 1)])
        F.add("Len", (L,), [[v.lst(t)] for _ in range(max(2, m // 2))])
        F.add("ListConcat", (L, L), [[v.lst(t), v.lst(t)] for _ in range(m)])
        F.add("in", (t, L), [[v.dupy(t), v.lst(t)] for _ in range(m)])
        F.add("Find", (L, t), [[v.lst(t), v.dupy(t)] for _ in range(m)])
        F.add("ListLookupIndex", (L, L), [[v.lst(t, f=v.ordy if r.random() < .5 else v.dupy), v.lst(t)] for _ in range(m)])
        F.add("Truncate", (L, "u32"), [(lambda l: [l, enc("u32", idx(len(l)))])(v.lst(t)) for _ in range(m)])
        F.add("ListGather", (L, "u32list", t),
              [(lambda l: [l, u32s(v, [idx(len(l)) for _ in range(v.n())]), v.dupy(t)])(v.lst(t)) for _ in range(m)])
        F.add("Unique", (L,), [[v.lst(t, f=v.ordy)] for _ in range(m)])
        if t != "string":
            key = lambda p: dec(t, p)
        else:
            key = lambda p: bytes(p)
        rows = []
        for _ in range(m):
            l = sorted(v.lst(t, f=v.ordy), key=key)
            rows.append([l, r.choice(l) if l and r.random() < .6 else v.ordy(t)])
        F.add("FindSorted", (L, t), rows)
        if t == "string":
            continue
        F.add("GetAt", (L, "u32"), [(lambda l: [l, enc("u32", idx(len(l)))])(v.lst(t)) for _ in range(m)])
        F.add("SortAsc", (L,), [[v.lst(t, f=v.ordy)] for _ in range(m)])
        F.add("SortDesc", (L,), [[v.lst(t, f=v.ordy)] for _ in range(m)])
        rows = []
        for _ in range(m):
            n = r.choice([0, 1, 2, 5, 15, 16, 17, 18, 30])
            b = sorted((v.ordy(t) for _ in range(n)), key=key)
            rows.append([[r.choice(b) if b and r.random() < .5 else v.dupy(t) for _ in range(v.n())], b])
        F.add("Bucketize", (L, L), rows)
        rows = []
        for _ in range(m + m // 2):
            l = v.lst(t)
            n = len(l)
            bs = [r.random() < r.choice([0, .2, .5, 1]) for _ in range(n)]
            bm = bits_bytes(bs)
            c = r.random()
            if c < .08:
                bm = bm + [[0]]
            elif c < .16:
                bm = bm[:-1]
            elif c < .24 and n % 8:
                bm[-1] = [bm[-1][0] | 1 << r.randrange(n % 8, 8)]
            rows.append([l, bm])
        F.add("FilterByBitmap", (L, "u8list"), rows)
        for to in NUMS:
            if to != t:
                F.add("Cast%sList" % UP[to], (L,), [[[mk((t,), rows_cast(v, t, to))[0] for _ in range(r.randint(0, 12))]] for _ in range(max(2, m // 3))])
    v = V(rng(seed, "lists", "join"))
    r = v.r
    for f in ("ListCompactPositions", "ListCompactIndex"):
        F.add(f, ("u32list",), [[[enc("u32", r.choice([0, 1, MISS, MISS - 1, MISS, 7])) for _ in range(v.n())]] for _ in range(2 * m)])
    sl = lambda n: [v.str() for _ in range(n)]
    F.add("CrossJoin", ("stringlist", "stringlist", "string"), [[sl(r.randint(0, 5)), sl(r.randint(0, 5)), v.str()] for _ in range(2 * m)])
    rows = []
    for _ in range(2 * m):
        n = r.randint(0, 9)
        rows.append([sl(n), sl(n if r.random() < .8 else r.randint(0, 9)), v.str()])
    F.add("ZipConcat", ("stringlist", "stringlist", "string"), rows)
    F.add("FindMiss", (), [])
    return F.scens()


def groups(seed, m):
    """P14"""
    F = Fam(seed, "groups", 20)
    for L in ALL:
        t = L[:-4]
        v = V(rng(seed, "groups", L))
        r = v.r
        n_or = lambda n: n if r.random() < .85 else r.randint(0, 20)

        def gi(n):
            """a group index as GroupIndex makes it"""
            ids, out = 0, []
            w = r.choice([1, 2, 5, 1000])
            for _ in range(n):
                g = r.randint(0, min(ids, w))
                ids = max(ids, g + 1)
                out.append(enc("u32", g))
            return out
        F.add("GroupIndex", (L,), [[v.lst(t, f=v.ordy)] for _ in range(m)])
        rows = []
        for _ in range(m):
            n = v.n()
            rows.append([v.lst(t, n=n), gi(n_or(n))])
        F.add("GroupKeys", (L, "u32list"), rows)
        if t == "string":
            continue
        small = lambda n=None: v.lst(t, n=n, f=v.smally)

        def avgy(tt):
            if t in ("i64", "u64"):
                return enc(t, r.randint(-(1 << 47) if t == "i64" else 0, 1 << 47))
            return v.anyy(tt) if t in INTS else v.smally(tt)

        def sumy(tt):
            if t == "i64":
                return enc(t, r.choice([r.randint(-(1 << 56), 1 << 56), r.randint(-9, 9)]))
            return v.anyy(tt) if t in INTS else v.smally(tt)
        F.add("Sum", (L,), [[v.lst(t, f=r.choice([sumy, v.smally]))] for _ in range(m)])
        F.add("Max", (L,), [[v.lst(t, f=v.ordy)] for _ in range(m)])
        F.add("Min", (L,), [[v.lst(t, f=v.ordy)] for _ in range(m)])
        F.add("CountDistinct", (L,), [[v.lst(t, f=v.ordy)] for _ in range(m)])
        F.add("Avg", (L,), [[v.lst(t, f=avgy)] for _ in range(m)])
        F.add("Median", (L,), [[v.lst(t, f=avgy)] for _ in range(m)])
        F.add("SortedMedian", (L,), [[sorted(v.lst(t, f=avgy), key=lambda p: dec(t, p))] for _ in range(m)])
        F.add("MurmurHash3X8632", (L,), [[v.lst(t, f=v.anyy)] for _ in range(m)])
        for f, el in (("GroupSum", sumy), ("GroupMax", v.ordy), ("GroupMin", v.ordy), ("GroupAvg", avgy)):
            rows = []
            for _ in range(m):
                n = v.n()
                rows.append([v.lst(t, n=n, f=el), gi(n_or(n))])
            if t in FLOATS and f in ("GroupMax", "GroupMin"):
                rows.append([[enc(t, x) for x in (-INF, INF, -INF, INF)], u32s(v, [0, 1, 0, 1])])
            F.add(f, (L, "u32list"), rows)
        if t == "u32":
            F.add("GroupCount", (L,), [[gi(v.n())] for _ in range(2 * m)])
        if t == "u8":
            F.add("CountBits", (L,), [[v.lst(t, f=v.anyy)] for _ in range(2 * m)])
    out = F.scens()
    # the documented composition: one group index shared by all Group* functions
    for k in range(m):
        r = rng(seed, "groupby", k)
        v = V(r)
        kl = r.choice(ALL)
        kt = kl[:-4]
        vt = r.choice(NUMS)
        n = v.n()
        keys = [v.ordy(kt) for _ in range(n)]
        vals = [v.smally(vt) for _ in range(n)]
        g = fn("GroupIndex", arg(kl, 0))
        vl = vt + "list"
        progs = [g, fn("GroupCount", g), fn("GroupKeys", arg(kl, 0), g)] + [fn(f, arg(vl, 1), g) for f in ("GroupSum", "GroupMax", "GroupMin", "GroupAvg")]
        progs.append(fn("Sum", fn("GroupSum", arg(vl, 1), g)))
        progs.append(bi("==", fn("Len", fn("GroupKeys", arg(kl, 0), g)), fn("GroupCount", g)))
        st = {"op": "execall", "e": 0, "in": 1, "api": "ret", "c": r.choice([-1, 0, 1])}
        out.append(scen(progs, [ARGS([(kl, keys), (vl, vals)])],
                        [compile_step(0, range(len(progs))), st] + [exec_step(at=i, c=0) for i in range(len(progs))], [ENG("batch")], ctxs=(64, 4096)))
    return out


def arith_rows(v, f, t, m, both):
    r = v.r
    rows = []
    for _ in range(m):
        n = v.n()

        def pair():
            for _ in range(100):
                if t in FLOATS:
                    a, b = v.num(t), v.num(t)
                else:
                    a, b = v.num(t), v.num(t)
                    if f in ("ListAdd", "ListSub", "ListMul"):
                        if t in ("i32", "i64", "u16"):
                            x = a + b if f == "ListAdd" else a - b if f == "ListSub" else a * b
                            lo, hi = (-(1 << 31), (1 << 31) - 1) if t == "u16" else irange(t)
                            if not lo <= x <= hi:
                                continue
                    if f in ("ListDiv", "ListMod") and b in (0, -1):
                        continue
                return a, b
            return 1, 1
        if both:
            ps = [pair() for _ in range(n)]
            a, b = [enc(t, p[0]) for p in ps], [enc(t, p[1]) for p in ps]
            if r.random() < .12:
                b = b[:-1] if b and r.random() < .5 else b + [enc(t, 3)]
            rows.append([a, b])
        else:
            _, b = pair()
            a = []
            for _ in range(n):
                for _ in range(50):
                    x, _ = pair()
                    ok = True
                    if t in ("i32", "i64", "u16") and f in ("ListAdd", "ListSub", "ListMul"):
                        y = x + b if f == "ListAdd" else x - b if f == "ListSub" else x * b
                        lo, hi = (-(1 << 31), (1 << 31) - 1) if t == "u16" else irange(t)
                        ok = lo <= y <= hi
                    if ok:
                        break
                else:
                    x = 0
                a.append(enc(t, x))
            rows.append([a, enc(t, b)])
    return rows


GEN = ["GenLargeBitmap", "GenLargeEqualBitmap", "GenEqualBitmap", "GenLessBitmap", "GenLessEqualBitmap", "GenNotEqualBitmap"]
IFS = ["IfLarge", "IfLargeEqual", "IfEqual", "IfLess", "IfLessEqual", "IfNotEqual"]


def elementwise(seed, m):
    """P15"""
    F = Fam(seed, "elementwise", 24)
    for t in NUMS:
        L = t + "list"
        v = V(rng(seed, "elementwise", t))
        r = v.r
        for f in ["ListAdd", "ListSub", "ListMul", "ListDiv"] + (["ListMod", "ListBitwiseAnd", "ListBitwiseOr", "ListBitwiseXor"] if t in INTS else []):
            F.add(f, (L, t), arith_rows(v, f, t, m, False))
            F.add(f, (L, L), arith_rows(v, f, t, m, True))
        nn = lambda tt: enc(tt, v.num(tt, False))
        for f in ("ListMin", "ListMax"):
            F.add(f, (L, t), [[v.lst(t, f=nn), nn(t)] for _ in range(m)])
        for f in GEN:
            F.add(f, (L, t), [[v.lst(t), v.dupy(t)] for _ in range(m)])
            rows = []
            for _ in range(m):
                n = v.n()
                rows.append([v.lst(t, n=n), v.lst(t, n=n if r.random() < .85 else v.n())])
            F.add(f, (L, L), rows)
        for f in IFS:
            F.add(f, (L, t, t), [[v.lst(t), v.dupy(t), v.dupy(t)] for _ in range(m)])
        for ta, tb in ((L, t), (t, L), (L, L)):
            rows = []
            for _ in range(m):
                n = v.n()
                nb = (n + 7) // 8
                c = r.random()
                if c < .1 and nb:
                    nb -= 1
                elif c < .25:
                    nb += r.randint(1, 3)
                bm = [[r.choice([0, 255, r.randrange(256)])] for _ in range(nb)]
                x = [v.lst(t, n=n) if ta == L else v.dupy(t)]
                x.append(v.lst(t, n=n if not (ta == L and r.random() < .12) else v.n()) if tb == L else v.dupy(t))
                rows.append([bm] + x)
            F.add("IfByBitmap", ("u8list", ta, tb), rows)
        for f in ("ListExp", "ListLog", "ListLog2", "ListLog10"):
            g = rows_exp if f == "ListExp" else rows_log
            tt = t if t in ("f32", "f64") or t in ("i32", "u32", "i64", "u64") else t

            def el(_t, g=g):
                x = g(v, t)[0]
                if t in INTS:
                    lo, hi = irange(t)
                    x = max(lo, min(hi, x))
                else:
                    x = f32(x) if t == "f32" else x
                return enc(t, x)
            F.add(f, (L,), [[v.lst(t, n=r.choice([0, 1, 2, 3, 4]), f=el)] for _ in range(max(1, m // 3))])
        if t in FLOATS:
            for f in ("ListCeil", "ListFloor", "ListRound"):
                F.add(f, (L,), [[v.lst(t, f=lambda _t: enc(t, f32(rows_round(v, t)[0]) if t == "f32" else rows_round(v, t)[0]))] for _ in range(m)])
    return F.scens()


def bounds(seed, which):
    """results that exactly fill an arena chunk, for AddressSanitizer: each program makes two list
    results of 64 bytes in a context with chunks of 128"""
    r = rng(seed, "bounds", which)
    v = V(r)
    ent = []                      # (call builder taking first argument index, argument (type, payload) list)

    def put(f, *args):
        ent.append((f, list(args)))
    for t in NUMS:
        L = t + "list"
        n = 64 // SIZE[t]
        lst = lambda k=n, t=t: (t + "list", v.lst(t, n=k, f=v.smally))
        one = lambda t=t: (t, enc(t, 3))
        pos = lambda k=n, t=t: (t + "list", [enc(t, i + 1) for i in range(k)])
        if which == "P15":
            for f in GEN:
                put(f, lst(512), one())
                put(f, lst(512), lst(512))
            for f in ["ListDiv"] + (["ListMod", "ListBitwiseAnd"] if t in INTS else []):
                put(f, pos(), one())
                put(f, pos(), pos())
            for f in ("ListMin", "ListMax"):
                put(f, lst(), one())
            for f in IFS:
                put(f, lst(), one(), one())
            bm = ("u8list", [[r.randrange(256)] for _ in range((n + 7) // 8)])
            put("IfByBitmap", bm, lst(), lst())
            put("IfByBitmap", bm, lst(), one())
            if t in FLOATS:
                put("ListCeil", lst())
            if t == "f32":
                put("ListLog", pos(8))
                put("ListLog", pos(8))
        if which == "P13":
            put("ListConcat", lst(n // 2), lst(n - n // 2))
            put("SortAsc", lst())
            put("SortDesc", lst())
            put("Unique", pos())
            put("Truncate", lst(n + 3), ("u32", enc("u32", n)))
            put("ListGather", lst(3), ("u32list", u32s(v, [r.randint(0, 4) for _ in range(n)])), one())
            put("ListLookupIndex", lst(16), lst(4))
            put("Bucketize", lst(16), (L, []))
            put("FilterByBitmap", lst(), ("u8list", bits_bytes([1] * n)))
            for to in NUMS:
                if to != t:
                    put("Cast%sList" % UP[to], (L, [enc(t, i + 1) for i in range(64 // SIZE[to])]))
        if which == "P14":
            put("GroupIndex", lst(16))
            ids = ("u32list", u32s(v, range(n)))
            put("GroupKeys", lst(), ids)
            put("GroupMax", lst(), ids)
            put("GroupMin", lst(), ids)
            id8 = ("u32list", u32s(v, range(8)))
            put("GroupSum", lst(8), id8)
            put("GroupAvg", lst(8), id8)
    if which == "P13":
        x = ("u32list", u32s(v, range(16)))
        put("ListCompactPositions", x)
        put("ListCompactIndex", x)
    if which == "P12":
        st = lambda k: ("string", [97] * k)
        put("StringConcat", st(32), st(32))
        put("StringConcat", st(63), st(1))
        put("StringConcat", st(64), st(0))
    out = []
    r.shuffle(ent)
    for i in range(0, len(ent), 10):
        progs, ins, steps = [], [], []
        for f, args in ent[i:i + 10]:
            k = len(progs)
            ln = "StringLen" if f == "StringConcat" else "Len"
            call = lambda o: fn(ln, fn(f, *[arg(t, o + j) for j, (t, _) in enumerate(args)]))
            progs.append(bi("+", call(0), call(len(args))))
            ins.append(ARGS(args + args))
            steps += [exec_step(at=k, inp=len(ins), c=0), exec_step(at=k, inp=len(ins), c=0)]
        out.append(scen(progs, ins, [compile_step(0, range(len(progs)))] + steps, [ENG("batch")], ctxs=(128,)))
    return out


def compositions(seed, m):
    """the functions inside larger programs: results of one feed the next, shared subterms"""
    out = []
    for k in range(m):
        r = rng(seed, "comp", k)
        g = FnGen(r)
        progs = [g.fexpr(r.choice(["u32", "u8", "string"] + LISTS + ["u64", "i64"]), 4) for _ in range(4)]
        rows = [g.inputs()]
        for _ in range(2):
            rows.append([{"t": t, "v": g.newpayload(t)} for t, _ in g.ins])
        n = len(progs)
        steps = [compile_step(0, range(n))]
        for i in range(3):
            steps += [exec_step(at=j, inp=i + 1, c=r.choice([-1, 0, 1])) for j in range(n)]
            if r.random() < .5:
                steps.append({"op": "execall", "e": 0, "in": i + 1, "api": "ret", "c": 1})
        out.append(scen(progs, [x or [{"t": "i32", "v": [0, 0, 0, 0]}] for x in rows], steps, [ENG("batch")], ctxs=(64, 4096)))
    return out


class FnGen(Gen):
    """expressions over built-ins that cannot fail and have no order-sensitive NaN"""

    def __init__(self, r):
        super().__init__(r)
        self.v = V(r)

    def newpayload(self, t):
        if t.endswith("list"):
            return self.v.lst(t[:-4], n=self.r.choice([0, 1, 3, 7, 8, 9, 12]), f=self.v.ordy)
        return self.v.ordy(t)

    def fleaf(self, t):
        old = [i for i, (vt, _) in enumerate(self.ins) if vt == t]
        if old and self.r.random() < .6:
            return arg(t, self.r.choice(old))
        if self.r.random() < .2:
            return self.constant(t, self.newpayload(t))
        return self.newarg(t, self.newpayload(t))

    def fexpr(self, t, d):
        r = self.r
        if d <= 0 or r.random() < .12:
            return self.fleaf(t)
        E = lambda tt: self.fexpr(tt, d - 1)
        anyL = lambda: r.choice(LISTS)
        num = lambda: r.choice(NUMS)
        if r.random() < .1:
            return {"k": "if", "a": [E("u8"), E(t), E(t)]}
        if t == "u32":
            c = r.randrange(6)
            L = anyL()
            if c == 0:
                return fn("Len", E(L))
            if c == 1:
                return fn("Find", E(L), E(L[:-4]))
            if c == 2:
                return fn("StringLen", E("string"))
            if c == 3:
                return fn("GetAt", E("u32list"), E("u32"))
            if c == 4:
                L = num() + "list"
                return fn("CountDistinct", E(L))
            return fn("MurmurHash3X8632", E(num() + "list"))
        if t == "u8":
            c = r.randrange(4)
            if c == 0:
                L = anyL()
                return fn("in", E(L[:-4]), E(L))
            if c == 1:
                return fn("StringContains", E("string"), E("string"))
            if c == 2:
                return bi(r.choice(REL), E("string"), E("string"))
            return bi(r.choice(REL), E("u32"), E("u32"))
        if t == "string":
            c = r.randrange(3)
            if c == 0:
                return fn("StringConcat", E("string"), E("string"))
            if c == 1:
                return fn("CastString", E(r.choice(["u32", "u8", "u64"])))
            return bi("+", E("string"), E("string"))
        if t == "u64":
            return fn("Sum", E(r.choice(["u8list", "u16list", "u32list"])))
        if t == "i64":
            return fn("Sum", E(r.choice(["i8list", "i16list", "i32list"])))
        if t in NUMS:
            c = r.random()
            if c < .4:
                return fn("GetAt", E(t + "list"), E("u32"))
            return self.fleaf(t)
        e = t[:-4]
        c = r.randrange(9)
        if c == 0:
            return fn("ListConcat", E(t), E(t))
        if c == 1:
            return fn("Truncate", E(t), E("u32"))
        if c == 2:
            return fn("ListGather", E(t), E("u32list"), E(e))
        if c == 3:
            return fn("Unique", E(t)) if e not in FLOATS else E(t)
        if t == "stringlist":
            return fn("CrossJoin", fn("Truncate", self.fleaf(t), const("u32", 3)), fn("Truncate", self.fleaf(t), const("u32", 2)), E("string"))
        if c == 4 and e not in FLOATS:
            return fn(r.choice(["SortAsc", "SortDesc"]), E(t))
        if t == "u32list" and c < 7:
            k = r.randrange(4)
            L = anyL()
            if k == 0:
                return fn("ListLookupIndex", E(L), E(L))
            if k == 1:
                return fn(r.choice(["ListCompactPositions", "ListCompactIndex"]), E("u32list"))
            if k == 2:
                return fn("GroupIndex", self.fleaf(L))
            return fn("Bucketize", E("u32list"), fn("SortAsc", E("u32list")))
        if t == "u8list" and c < 7:
            return fn(r.choice(GEN), E("i32list"), E("i32"))
        if c == 5:
            return fn(r.choice(IFS), E(t), E(e), E(e))
        if c == 6 and e in ("u8", "u16", "u32", "u64"):
            return fn(r.choice(["ListBitwiseAnd", "ListBitwiseOr", "ListBitwiseXor"]), E(t), E(e))
        if c == 7 and e in INTS:
            return fn(r.choice(["ListMin", "ListMax"]), E(t), E(e))
        return self.fleaf(t)


# names registered with further, internal signatures
HIDDEN = {"GroupKeys", "GroupSum", "GroupMax", "GroupMin", "GroupAvg", "FilterByBitmap", "abs"}


def signatures(seed, m, which):
    """calls with a wrong argument type, too few or too many arguments are rejected"""
    out = []
    r = rng(seed, "sigs")
    ok = {"P11": scalars, "P12": strings, "P13": lists, "P14": groups, "P15": elementwise}[which]
    F = []
    for s in ok(seed, 1, 1) if which == "P11" else ok(seed, 1):
        for p in s["progs"]:
            q = p
            while q["k"] in "ub":
                q = q["a"]
            if q["k"] == "f" and not q["n"].startswith("arg_") and all(x["k"] == "f" and x["n"].startswith("arg_") for x in q["a"]):
                F.append(q)
    for k in range(m):
        q = r.choice(F)
        ts = [x["n"][4:] for x in q["a"]]
        c = r.random()
        new = list(ts)
        if c < .5 and new:
            i = r.randrange(len(new))
            new[i] = r.choice(NUMS + ["string"] + LISTS)
        elif c < .7 and new and q["n"] not in HIDDEN:
            new.pop(r.randrange(len(new)))
        elif c < .9 and q["n"] not in HIDDEN:
            new.insert(r.randint(0, len(new)), r.choice(NUMS + ["string"] + LISTS))
        elif len(new) > 1:
            r.shuffle(new)
        if q["n"] == "abs":
            new = [r.choice(["u8", "u16", "u32", "u64", "string"] + LISTS)]
        g = V(r)
        prog = fn(q["n"], *[arg(t, i) for i, t in enumerate(new)])
        # never executed: only accepted or rejected
        out.append(scen([prog], [[{"t": "i32", "v": enc("i32", 0)}]], [compile_step(0, (0,))]))
    return out

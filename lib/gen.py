"""Random generation of programs and inputs.

Programs are JSON trees (see spec/Lang.tla).  The generator only steers: whether a program is
accepted and what it computes is decided by the specification.  It avoids what the language
leaves undefined (integer division by zero or min/-1, shifts by at least the width).
"""
import random, struct

INTS = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"]
FLOATS = ["f32", "f64"]
NUMS = INTS + FLOATS          # in promotion order
ELEMS = NUMS + ["string"]
LISTS = [t + "list" for t in ELEMS]
RANK = {t: i for i, t in enumerate(NUMS)}
SIZE = {"i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f32": 4, "f64": 8}
SIGNED = {"i8", "i16", "i32", "i64"}
ARITH = ["+", "-", "*", "/", "%"]
REL = [">", ">=", "==", "<", "<=", "!="]
LOG = ["and", "or"]
BIT = ["&", "|", "^"]
SHIFT = ["<<", ">>"]
BINOPS = ARITH + REL + LOG + BIT + SHIFT


def promote(a, b):
    return a if RANK[a] > RANK[b] else b


def enc(t, x):
    """number -> little-endian bytes"""
    if t == "f32":
        return list(struct.pack("<f", x))
    if t == "f64":
        return list(struct.pack("<d", x))
    n = SIZE[t]
    return list((int(x) & ((1 << (8 * n)) - 1)).to_bytes(n, "little"))


def dec(t, b):
    if t == "f32":
        return struct.unpack("<f", bytes(b))[0]
    if t == "f64":
        return struct.unpack("<d", bytes(b))[0]
    return int.from_bytes(bytes(b), "little", signed=t in SIGNED)


def irange(t):
    n = 8 * SIZE[t]
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if t in SIGNED else (0, (1 << n) - 1)


def const(t, x):
    return {"k": "c", "t": t, "v": enc(t, x) if t != "string" else list(x)}


def fn(name, *args):
    return {"k": "f", "n": name, "a": list(args)}


EA, EC, OUT = {"k": "ea"}, {"k": "ec"}, {"k": "out"}


def arg(t, i):
    return fn("arg_" + t, EA, const("i32", i))


def un(op, a):
    return {"k": "u", "op": op, "a": a}


def bi(op, a, b):
    return {"k": "b", "op": op, "a": a, "b": b}


def seq(items, iso=0):
    """items: nodes or (name, is_const, node)"""
    vs, ns = [], []
    for it in items:
        if isinstance(it, tuple):
            vs.append({"n": it[0], "c": it[1]})
            ns.append(it[2])
        else:
            vs.append({"n": "", "c": 0})
            ns.append(it)
    return {"k": "no", "iso": iso, "a": ns, "v": vs}


class Gen:
    def __init__(self, rnd, exactf=False):
        self.r = rnd
        self.exactf = exactf          # only small integral floats (engines in fast mode)
        self.ins = []                 # input values the program refers to: (type, payload)
        self.tag = 0
        self.vars = []                # visible variables: (name, type, const)
        self.effects = False          # may generate logging / error calls
        self.errors = False
        self.strings = True
        self.maxstr = 8

    # ---- values
    def num(self, t):
        r = self.r
        if t in FLOATS:
            if self.exactf:
                return float(r.randint(-9, 9))
            c = r.random()
            if c < 0.45:
                x = r.choice([0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 0.1, 1e-3, 1.5, -2.5, 7.25, 100.0, 1e10,
                              float("inf"), float("-inf"), float("nan"), 1e-40, 3.4e38, 1.17549435e-38, 16777217.0,
                              4294967296.0, 9.2e18, 255.5, -128.0])
                if t == "f64" and r.random() < 0.3:
                    x = r.choice([5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 9007199254740993.0, 1e-310])
            elif c < 0.8:
                x = round(r.uniform(-1000, 1000), r.randint(0, 4))
            else:
                b = [r.randrange(256) for _ in range(SIZE[t])]
                return dec(t, b)
            if t == "f32":
                try:
                    x = struct.unpack("<f", struct.pack("<f", x))[0]
                except OverflowError:
                    x = float("inf")
            return x
        lo, hi = irange(t)
        c = r.random()
        if c < 0.35:
            return r.choice([v for v in (0, 1, -1, 2, 3, lo, hi, lo + 1, hi - 1, 127, 128, 255, 256, -128, 32767, 65535,
                                         (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 53) + 1) if lo <= v <= hi])
        if c < 0.7:
            return r.randint(max(lo, -20), min(hi, 20))
        return r.randint(lo, hi)

    def string(self):
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 3, r.randint(0, self.maxstr)])
        al = r.choice([b"ab", b"abcAB 01.-", bytes(range(256))])
        return [r.choice(al) for _ in range(n)]

    def payload(self, t):
        if t == "string":
            return self.string()
        if t.endswith("list"):
            n = self.r.choice([0, 1, 2, 3, 4, self.r.randint(0, 9)])
            return [self.payload(t[:-4]) for _ in range(n)]
        return enc(t, self.num(t))

    # ---- leaves
    def newarg(self, t, payload=None):
        p = self.payload(t) if payload is None else payload
        if len(self.ins) < 16:
            self.ins.append((t, p))
            return arg(t, len(self.ins) - 1)
        return self.constant(t, p)

    def constant(self, t, p):
        return {"k": "cl" if t.endswith("list") else "c", "t": t, "v": p}

    def leaf(self, t):
        r = self.r
        if t == "ptr":
            return r.choice([EA, OUT])
        c = r.random()
        vs = [n for n, vt, _ in self.vars if vt == t]
        if vs and c < 0.45:
            return {"k": "ref", "n": r.choice(vs)}
        if c < 0.7:
            old = [i for i, (vt, _) in enumerate(self.ins) if vt == t]
            if old and r.random() < 0.3:
                return arg(t, r.choice(old))
            return self.newarg(t)
        k = self.constant(t, self.payload(t))
        return fn("id_" + t, k) if r.random() < 0.3 else k

    def newtag(self):
        self.tag += 1
        return self.tag

    # a nonzero divisor that is not -1
    def divisor(self, t, depth):
        while True:
            x = self.num(t)
            if t in FLOATS or x not in (0, -1):
                break
        p = enc(t, x)
        return self.newarg(t, p) if self.r.random() < 0.5 else self.constant(t, p)

    def cond(self, depth):
        return self.expr(self.r.choice(["u8", "u8", "u8"] + NUMS), depth)

    def expr(self, t, depth):
        """an expression of exactly type t"""
        r = self.r
        if depth <= 0 or t == "ptr" or r.random() < 0.12:
            return self.leaf(t)
        wrap = r.random()
        if self.effects and wrap < 0.22:
            return fn("tr_" + t, OUT, const("u32", self.newtag()), self.expr(t, depth - 1))
        if self.errors and wrap > 0.94:
            if r.random() < 0.4 and len(self.ins) < 16:
                return fn("err_" + t, self.newarg(t), const("i32", 7777))   # the same message from several calls
            return fn("err_" + t, self.expr(t, depth - 1), const("i32", self.newtag()))
        c = r.random()
        if c < 0.12:
            if t in NUMS:
                o = r.choice([x for x in NUMS if RANK[x] <= RANK[t]])
                ts = [t, o]
                r.shuffle(ts)
            else:
                ts = [t, t]
            return {"k": "if", "a": [self.cond(depth - 1), self.expr(ts[0], depth - 1), self.expr(ts[1], depth - 1)]}
        if c < 0.2:
            n = r.randint(0, 3)
            ts = [t if t not in NUMS else r.choice([x for x in NUMS if RANK[x] <= RANK[t]]) for _ in range(n + 1)]
            ts[r.randrange(n + 1)] = t
            a = []
            for i in range(n):
                a += [self.cond(depth - 1), self.expr(ts[i], depth - 1)]
            a.append(self.expr(ts[n], depth - 1))
            return {"k": "sw", "a": a}
        if t == "i64" and c < 0.26:
            if self.errors and r.random() < .3 and len(self.ins) < 15:
                return fn("cme_i64", self.newarg("i64"), self.newarg("i64"))
            return fn("cm_i64", self.expr("i64", depth - 1), self.expr("i64", depth - 1))
        if t == "i64list" and c < 0.4:
            return fn("rep_i64", self.expr("i64", depth - 1), const("i32", r.choice([0, 1, 3, 9])))
        if t not in NUMS:
            if r.random() < 0.7:
                return bi("+", self.expr(t, depth - 1), self.expr(t, depth - 1))
            return fn("id_" + t, self.expr(t, depth - 1))
        if t == "u8" and c < 0.55:
            k = r.random()
            if k < 0.4:
                if self.strings and r.random() < 0.2:
                    return bi(r.choice(REL), self.expr("string", depth - 1), self.expr("string", depth - 1))
                return bi(r.choice(REL), self.expr(r.choice(NUMS), depth - 1), self.expr(r.choice(NUMS), depth - 1))
            if k < 0.85:
                return bi(r.choice(LOG), self.cond(depth - 1), self.cond(depth - 1))
            return un("not", self.cond(depth - 1))
        if c < 0.35:
            if t in INTS:
                if t == "i32" and r.random() < 0.5:
                    return un("-", self.expr(r.choice(["i8", "u8", "i16", "u16", "i32"]), depth - 1))
                if RANK[t] >= RANK["i32"] and r.random() < 0.5:
                    return un("-", self.expr(t, depth - 1))
                return un(r.choice(["+", "~"]), self.expr(t, depth - 1))
            return un(r.choice(["+", "-"]), self.expr(t, depth - 1))
        if t in INTS and c < 0.5:
            w = 8 * SIZE[t]
            ct = r.choice(INTS)
            k = r.randrange(min(w, 128))
            cnt = self.newarg(ct, enc(ct, k)) if r.random() < 0.5 else const(ct, k)
            return bi(r.choice(SHIFT), self.expr(t, depth - 1), cnt)
        o = r.choice([x for x in (INTS if t in INTS else NUMS) if RANK[x] <= RANK[t]])
        lt, rt = (t, o) if r.random() < 0.5 else (o, t)
        ops = ARITH + (BIT if t in INTS else [])
        if self.exactf and t in FLOATS:
            ops = ["+", "-"] if depth < 2 else ["+", "-", "*"]
        op = r.choice(ops)
        if op in ("/", "%"):
            return bi(op, self.expr(lt, depth - 1), self.divisor(rt, depth - 1))
        return bi(op, self.expr(lt, depth - 1), self.expr(rt, depth - 1))

    # ---- statements
    def stmts(self, n, depth, types):
        """the items of a sequence; variables assigned become visible"""
        r = self.r
        items = []
        for _ in range(n):
            c = r.random()
            if c < 0.4:
                items.append(self.assign(depth, types))
            elif c < 0.62 and depth > 0:
                items.append(self.ifblock(depth, types))
            elif c < 0.7 and depth > 0:
                items.append(self.block(depth, types))
            else:
                t = r.choice(types)
                f = "st_" if r.random() < 0.7 else "tr_"
                items.append(fn(f + t, OUT, const("u32", self.newtag()), self.expr(t, min(depth, 2))))
        return items

    def assign(self, depth, types):
        r = self.r
        mut = [(n, t) for n, t, c in self.vars if not c]
        if mut and r.random() < 0.55:
            n, t = r.choice(mut)
            return (n, 0, self.expr(t, depth))
        n = "v%d" % r.randint(0, 9)
        if any(x[0] == n for x in self.vars):
            n = "w%d" % self.newtag()
        t = r.choice(types)
        e = self.expr(t, depth)
        c = 1 if r.random() < 0.2 else 0
        self.vars.append((n, t, c))
        return (n, c, e)

    def scoped(self, f):
        save = list(self.vars)
        x = f()
        self.vars = save
        return x

    def ifblock(self, depth, types):
        r = self.r
        a = []
        for _ in range(r.choice([1, 1, 2, 3])):
            a.append(self.cond(min(depth - 1, 2)))
            a.append(self.scoped(lambda: seq(self.stmts(r.randint(0, 3), depth - 1, types))))
        if r.random() < 0.6:
            a.append(self.scoped(lambda: seq(self.stmts(r.randint(0, 3), depth - 1, types))))
        return {"k": "ib", "a": a}

    def block(self, depth, types):
        r = self.r
        if r.random() < 0.4:
            def one():
                return self.scoped(lambda: self.stmts(1, depth - 1, types)[0])
            return seq([one() for _ in range(r.randint(0, 3))], iso=1)
        # a plain nested sequence shares the scope
        return seq(self.stmts(r.randint(0, 3), depth - 1, types))

    def inputs(self):
        return [{"t": t, "v": p} for t, p in self.ins]

    def reinput(self):
        """other values for the same arguments, keeping divisors and shift counts legal is the
        caller's business: only used by generators that avoid both"""
        return [{"t": t, "v": self.payload(t)} for t, p in self.ins]


def nodes(n, path=()):
    """all (path, node) of a tree"""
    out = [(path, n)]
    for key in ("a", "b"):
        c = n.get(key)
        if isinstance(c, dict):
            out += nodes(c, path + (key,))
        elif isinstance(c, list):
            for i, x in enumerate(c):
                if isinstance(x, dict) and "k" in x:
                    out += nodes(x, path + (key, i))
    return out


def replace(n, path, new):
    import copy
    n = copy.deepcopy(n)
    if not path:
        return new
    c = n
    for p in path[:-1]:
        c = c[p]
    c[path[-1]] = new
    return n


ENG = lambda k="single", fp=0, save=0, ir=0, chunk=4096: {"k": k, "fp": fp, "save": save, "ir": ir, "chunk": chunk}


def compile_step(e=0, p=(0,), **kw):
    return {"op": "compile", "e": e, "p": list(p), **kw}


def exec_step(e=0, at=0, inp=1, api="ret", c=-1, **kw):
    return {"op": "exec", "e": e, "at": at, "in": inp, "api": api, "c": c, **kw}

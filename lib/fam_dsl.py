"""Scenario families about source texts: programs printed with random layout, edited token
sequences, byte noise, literals, and pipelines.  The specification (Dsl.tla) reads the same
bytes; nothing here decides what a text means."""
import math, re
from fractions import Fraction
from gen import *
from fam_lang import rng, scen, ARGS

PREC = {"or": 1, "and": 2, "in": 3, "|": 4, "^": 5, "&": 6, "==": 7, "!=": 7, "<": 8, "<=": 8, ">": 8, ">=": 8,
        "<<": 9, ">>": 9, "-": 10, "+": 10, "*": 11, "/": 11, "%": 11}
SPELL = {"or": ["or", "||"], "and": ["and", "&&"], "not": ["not", "!"], "!=": ["!=", "<>"]}


def dec_of(x):
    """the exact decimal expansion of a finite float, without exponent"""
    f = Fraction(x)
    k = 0
    d = f.denominator
    while d > 1:
        d //= 2
        k += 1
    n = f.numerator * 5 ** k if k else f.numerator
    s = str(abs(n)).rjust(k + 1, "0")
    return s[:-k] + "." + s[-k:] if k else s


class Printer:
    def __init__(self, r, g=None):
        self.r, self.g = r, g

    # -- literals
    def int_lit(self, t, x):
        z = "0" * self.r.choice([0, 0, 0, 0, 1, 3])
        return z + str(x) + ("" if t == "i32" and self.r.random() < .7 else t)

    def float_lit(self, t, x):
        r = self.r
        s = dec_of(x)
        if len(s) > 40:
            s = ("%.*f" % (r.randint(1, 20), x))
        if "." not in s:
            s = s if r.random() < .4 else s + r.choice([".", ".0", ".000"])
        elif s.startswith("0.") and r.random() < .3:
            s = s[1:]
        elif r.random() < .2:
            s += "0" * r.randint(1, 5)
        if "." not in s:
            return s + t
        return s + ("" if t == "f64" and r.random() < .6 else t)

    def str_lit(self, p):
        r = self.r
        q = r.choice("\"'")
        b = []
        for c in p:
            if c == ord(q) or c == 92:
                b += r.choice([[92, c], [92, 110], [122]])
            else:
                b.append(c)
        if r.random() < .1:
            b += list(r.choice([b"//", b"/*", b"*/", b"; x", b"\\\\", b"\n", b"#", b"\\" + q.encode()]))
        return q.encode() + bytes(b) + q.encode()

    def const(self, n):
        t = n["t"]
        if t == "string":
            return [self.str_lit(n["v"])]
        x = dec(t, n["v"])
        if t in FLOATS:
            if not math.isfinite(x):
                return self.as_arg(t, n["v"])
            if (abs(x) > 1e25 or 0 < abs(x) < 1e-20) and self.r.random() < .9:
                return self.as_arg(t, n["v"])
            l = self.float_lit(t, abs(x))
            return ["-", l] if math.copysign(1, x) < 0 else [l]
        if t == "u8" and x in (0, 1) and self.r.random() < .5:
            return ["true" if x else "false"]
        if x < 0:
            if t in ("i8", "i16"):
                return self.as_arg(t, n["v"])
            return ["-", self.int_lit(t, -x)]
        return [self.int_lit(t, x)]

    def as_arg(self, t, v):
        g = self.g
        if g is not None and len(g.ins) < 16:
            g.ins.append((t, v))
            return self.expr(arg(t, len(g.ins) - 1))
        return [self.int_lit(t, 3)] if t in INTS else [self.float_lit(t, 1.5)]

    def list_items(self, n):
        t = n["t"][:-4]
        out = []
        for p in n["v"]:
            if t == "string":
                out.append(self.str_lit(p))
            else:
                x = dec(t, p)
                if t in FLOATS:
                    out.append(self.float_lit(t, abs(x) if 1e-20 < abs(x) < 1e25 else 7.5))
                else:
                    out.append(self.int_lit(t, min(abs(x), irange(t)[1])))
        return out

    # -- expressions: lists of tokens
    def expr(self, n, redundant=None):
        if redundant is None:
            redundant = self.r.random() * .2
        ts = self._expr(n, redundant)
        return ts

    def paren(self, ts):
        return ["("] + ts + [")"]

    def sub(self, n, red, tight):
        ts = self._expr(n, red)
        lvl = self.level(n)
        if lvl < tight or self.r.random() < red:
            ts = self.paren(ts)
        return ts

    def level(self, n):
        if n["k"] == "b":
            return PREC[n["op"]]
        if n["k"] == "f" and n.get("infix"):
            return PREC["in"]
        return 12

    def args(self, a, red):
        out = []
        for i, x in enumerate(a):
            out += ([","] if i else []) + self._expr(x, red)
        return out

    def _expr(self, n, red):
        r, k = self.r, n["k"]
        if k == "c":
            return self.const(n)
        if k == "cl":
            if not n["v"]:
                return self.as_arg(n["t"], n["v"])
            out = ["["]
            for i, x in enumerate(self.list_items(n)):
                out += ([","] if i else []) + [x]
            return out + ["]"]
        if k in ("ea", "ec", "out"):
            return [{"ea": "entry_arg", "ec": "exec_ctx", "out": "output"}[k]]
        if k == "ref":
            return [n["n"]]
        if k == "u":
            return [r.choice(SPELL.get(n["op"], [n["op"]]))] + self.sub(n["a"], red, 12)
        if k == "b":
            p = PREC[n["op"]]
            return self.sub(n["a"], red, p) + [r.choice(SPELL.get(n["op"], [n["op"]]))] + self.sub(n["b"], red, p + 1)
        if k == "f":
            if n["n"] == "in" and len(n["a"]) == 2 and r.random() < .7:
                n = dict(n, infix=1)
                return self.paren(self.sub(n["a"][0], red, 3) + ["in"] + self.sub(n["a"][1], red, 4))
            return [n["n"], "("] + self.args(n["a"], red) + [")"]
        if k in ("if", "sw"):
            return [{"if": "if", "sw": "switch"}[k], "("] + self.args(n["a"], red) + [")"]
        raise ValueError(k)

    # -- statements
    def stmt(self, v, n):
        if n["k"] == "ib":
            out, a, i = [], n["a"], 0
            while i < len(a):
                if i == len(a) - 1:
                    out += ["else", "{"] + self.stmts(a[i]) + ["}"]
                    i += 1
                else:
                    out += ["when" if i == 0 else "elif"] + self.expr(a[i]) + ["{"] + self.stmts(a[i + 1]) + ["}"]
                    i += 2
            return out
        pre = []
        if v["n"]:
            pre = (["let"] if v["c"] else []) + [v["n"], "="]
        return pre + self.expr(n) + [";"]

    def stmts(self, n):
        out = []
        for v, x in zip(n["v"], n["a"]):
            out += self.stmt(v, x)
        return out

    # -- layout
    def gap(self, need, noisy):
        r = self.r
        c = r.random()
        if c < .45 and not need:
            return b""
        if c < .75 or not noisy:
            return b" "
        if c < .85:
            return r.choice([b"  ", b"\t", b"\n", b"\n\n", b" \r\n", b"\n  "])
        body = bytes(r.choice(b"ab *\"'/;=#\n\xe4\x00-") for _ in range(r.randint(0, 9)))
        if c < .93:
            return b"/*" + body.replace(b"*/", b"* ") .rstrip(b"*") + r.choice([b"", b"*", b"**"]) + b"*/"
        return b"//" + body.replace(b"\n", b"") + b"\n"

    def layout(self, ts, noisy=None):
        r = self.r
        if noisy is None:
            noisy = r.random() < .7
        out = b""
        prev = b""
        word = rb"[A-Za-z0-9_.]"
        for t in ts:
            t = t if isinstance(t, bytes) else t.encode()
            need = bool(re.match(word, prev[-1:] or b" ")) and bool(re.match(word, t[:1]))
            need = need or (prev[-1:] in b"<>=!&|/*-+" and t[:1] in b"<>=!&|/*-+" and prev != b"")
            gap = self.gap(need, noisy)
            if prev[-1:] == b"/" and gap[:1] == b"/":
                gap = b" " + gap
            out += gap + t
            prev = t
        if noisy and r.random() < .3:
            out += self.gap(False, True)
        return list(out)


def one_stmt(items):
    return seq(items)


def expr_progs(r, g, i):
    """statements of an expression text"""
    ts = r.sample(NUMS + ["string", "i32list", "f64list", "stringlist"], 3)
    items, vs = [], []
    for _ in range(r.choice([0, 0, 1, 2, 3])):
        t = r.choice(ts)
        if r.random() < .2 and vs:
            items.append(g.expr(t, 2))
            continue
        e = g.expr(t, r.randint(0, 3))
        names = [v for v in g.vars if not v[2]]
        if names and r.random() < .3:
            n = r.choice(names)[0]
            g.vars = [v for v in g.vars if v[0] != n]
            c = 0
        else:
            n = r.choice(["a", "B", "x1", "in_", "notx", "let1", "_a"[1:], "orr", "If", "u8", "f32", "elsee", "e5", "output1"])
            c = 1 if r.random() < .3 else 0
            if any(v[0] == n for v in g.vars):
                n = "w%d" % len(items)
        g.vars.append((n, t, c))
        vs.append(n)
        items.append((n, c, e))
    items.append(g.expr(r.choice(ts), r.randint(0, 4)))
    return items


def texts(seed, n, key="dsl"):
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        g = Gen(r)
        root = seq(expr_progs(r, g, i))
        pr = Printer(r, g)
        toks = pr.stmts(root)
        txs = [pr.layout(toks, noisy=k > 0) for k in range(2)]
        st = []
        for e in range(2):
            st += [compile_step(e, [e]), exec_step(e, api="ret", c=r.choice([-1, 0]))]
        out.append(scen([], [g.inputs()], st, [ENG("expr", fp=0)] * 2, texts=txs))
    return out


def ev(op, a, b):
    """small-integer evaluation; None where undefined"""
    if op in ("/", "%"):
        if b == 0 or b == -1:
            return None
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if op == "/" else a - q * b
    if op in ("<<", ">>"):
        if not 0 <= b < 8 or abs(a) > 1 << 16 or (op == "<<" and a < 0):
            return None
        return a << b if op == "<<" else a >> b
    v = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b,
         "==": lambda: int(a == b), "!=": lambda: int(a != b), "<": lambda: int(a < b), "<=": lambda: int(a <= b),
         ">": lambda: int(a > b), ">=": lambda: int(a >= b), "and": lambda: int(bool(a) and bool(b)),
         "or": lambda: int(bool(a) or bool(b))}[op]()
    return v if abs(v) < 1 << 24 else None


def groupings(ops, vals):
    """values of every way to parenthesise vals[0] ops[0] vals[1] ..., None if any is undefined"""
    if not ops:
        return {vals[0]}
    out = set()
    for k in range(len(ops)):
        l = groupings(ops[:k], vals[:k + 1])
        q = groupings(ops[k + 1:], vals[k + 1:])
        if l is None or q is None:
            return None
        for a in l:
            for b in q:
                v = ev(ops[k], a, b)
                if v is None:
                    return None
                out.add(v)
    return out


def precedence(seed, triples, tries=60):
    """every pair of binary operators, and sampled triples, on values that tell the groupings apart"""
    r = rng(seed, "prec")
    ops = [o for o in PREC if o != "in"]
    combos = [(a, b) for a in ops for b in ops]
    combos += [tuple(r.choice(ops) for _ in range(3)) for _ in range(triples)]
    jobs = []
    for c in combos:
        best = None
        for _ in range(tries):
            vs = [r.choice([0, 1, 2, 3, 5, 6, 7, 1, 2]) for _ in range(len(c) + 1)]
            g = groupings(list(c), vs)
            if g is not None and (best is None or len(g) > best[0]):
                best = (len(g), vs)
        if best:
            jobs.append((c, best[1]))
    out = []
    for k in range(0, len(jobs), 12):
        part = jobs[k:k + 12]
        txs, st = [], []
        pr = Printer(r)
        for j, (c, vs) in enumerate(part):
            toks = []
            for q, v in enumerate(vs):
                lit = ["%d" % v] if r.random() < .5 else ["id_i32", "(", "%d" % v, ")"]
                if r.random() < .2:
                    lit = ["+"] + lit
                toks += ([r.choice(SPELL.get(c[q - 1], [c[q - 1]]))] if q else []) + lit
            txs.append(pr.layout(toks + [";"]))
            st += [compile_step(0, [j]), exec_step(0)]
        out.append(scen([], [[]], st, [ENG("expr")], texts=txs))
    # unary and `in` against every binary operator
    txs = []
    pr = Printer(r)
    for u in ("-", "+", "not", "!", "~"):
        for o in ops:
            if o in ("/", "%", "<<", ">>"):
                txs.append(([u, "6"] + [o] + ["2"]))
                continue
            txs.append([u, "2", o, "3"])
            txs.append(["3", o, u, "2"])
            txs.append([u, u, "5", o, "1"])
            txs.append([u, "(", "2", o, "3", ")"])
    for o in ops:
        if o in ("/", "%", "<<", ">>"):
            continue
        txs.append(["1", o, "2", "in", "[", "1", ",", "3", "]"])
        txs.append(["1", "in", "[", "1", ",", "3", "]", o, "2"])
        txs.append(["1", o, "(", "2", "in", "[", "1", ",", "2", "]", ")"])
    for k in range(0, len(txs), 20):
        part = [pr.layout(t + [";"]) for t in txs[k:k + 20]]
        st = []
        for j in range(len(part)):
            st += [compile_step(0, [j]), exec_step(0, maybe=1)]
        out.append(scen([], [[]], st, [ENG("expr")], texts=part))
    return out


def literals(seed, n):
    out = []
    txs = []
    r = rng(seed, "lits")
    for t in INTS:
        lo, hi = irange(t)
        sfx = [t] + ([""] if t == "i32" else [])
        for s in sfx:
            for x in (0, 1, hi - 1, hi, hi + 1, hi + 2, 2 * hi + 1, 2 * hi + 2, 2 * hi + 3, 10 ** 19, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5, 10 ** 30):
                z = "0" * r.choice([0, 0, 2, 25])
                txs += [f"{z}{x}{s};", f"-{x}{s};", f"[1{s},{z}{x}{s}];", f"-/*-*/{z}{x}{s} ;"]
            txs += [f"{r.randint(0, 2 * hi)}{s};" for _ in range(max(1, n // 16))]
            txs += [f"1 - {hi + 1}{s};", f"- - {hi + 1}{s};", f"-({hi + 1}{s});", f"not {hi + 1}{s};", f"f({hi + 1}{s});", f"-{hi + 1}{s} + {hi}{s};",
                    f"1{s} - -{hi + 1}{s};"]
    for t in FLOATS:
        p = 24 if t == "f32" else 53
        s = t
        big = (2 - Fraction(1, 2 ** (p - 1))) * 2 ** (127 if t == "f32" else 1023)
        half = big + Fraction(2 ** (127 if t == "f32" else 1023), 2 ** p)     # rounds to infinity
        xs = [str(int(big)), str(int(half)), str(int(half) - 1), str(int(big)) + ".5", "9" * (39 if t == "f32" else 309), "1" + "0" * (38 if t == "f32" else 308),
              "0", "0.", ".0", "000.5", "1.", "16777217", "9007199254740993", "0.1", "0.3", "3.4028235", "2.5", ".5", "00.100"]
        if t == "f32":
            xs += ["0." + "0" * 44 + "7006492321624085354618", "0." + "0" * 44 + "7006492321624085354619", "0." + "0" * 44 + "15",
                   "0." + "0" * 37 + "117549429", "0." + "0" * 50 + "1"]
        else:
            xs += ["0." + "0" * 323 + "24703282292062327", "0." + "0" * 323 + "24703282292062329", "0." + "0" * 307 + "22250738585072011"]
        for _ in range(n):
            c = r.random()
            a = "".join(r.choice("0123456789") for _ in range(r.randint(0, 12)))
            b = "".join(r.choice("0123456789") for _ in range(r.randint(0 if a else 1, 14)))
            if c < .3:      # near the middle between two floats
                m = r.getrandbits(p) | 1 << (p - 1)
                e = r.randint(-40, 20)
                f = Fraction(2 * m + 1) * Fraction(2) ** (e - 1)
                d = dec_of(f)
                if "." not in d:
                    d += "."
                xs.append(d + r.choice(["", "0", "00001", "5"]))
                if d[-1] != "0" and d[-1] != ".":
                    xs.append(d[:-1] + str(int(d[-1]) - 1) + "9999")
            else:
                xs.append(a + "." + b if a + b else "0.")
        for x in xs:
            txs.append(f"{x}{s};")
            if "." in x and t == "f64":
                txs.append(f"{x};")
            if r.random() < .2:
                txs += [f"-{x}{s};", f"[{x}{s}, {x}{s}];"]
    txs += ["true;", "false;", "TRUE;", "'';", "\"\";", "'\"';", "\"'\";", r"'a\'b';", r'"\\";', r'"\";', "'a\\\nb';", "'a\nb';", "'//x';", "\"/* x */\";",
            "[ ];", "[true];", "[-1];", "[1,];", "[,1];", "[1 2];", "[1,2u8];", "['a',\"b\"];", "[1,2.0];", "[(1)];", "[1.0,2f64];", "[1.0, 2f32];",
            "1u;", "1u80;", "1 u8;", "1.5u8;", "1e5;", "0x10;", "1_000;", "1..2;", "1.2.3;", "1.f32;", ".f32;", "5f31;", "5f321;", "1i7;", "1i80;", "1i3;", ".;", "..;",
            "1.i32;", "_a;", "a_;", "$;", "1$;", "#;", "1?;", "`;", "\\;", "\x7f;", "1:;", "'a;", "a\";", "1;;", ";", "", " ", "/**/", "// x", "1", "1; 2", "1;}", "{1;}",
            "/* 1;", "1; /*", "1; */", "1 /*/ + 2; /**/ ;", "1 //\n+ 2;", "1 // + 2;", "/**/1/***/;", "/***/1;", "/* * / */1;", "1 / / 2;", "6/2;", "6/ /*x*/2;",
            "let = 1;", "let a 1;", "let a = ;", "a = b = 1;", "a == 1;", "(a) = 1;", "if = 1;", "entry_arg = 1;", "if(1,2,3);", "if(1,2);", "if();", "switch();",
            "switch(1);", "switch(1,2,3);", "if 1;", "id_i32();", "id_i32(1,);", "id_i32(,1);", "id_i32 (1);", "id_i32\n(\n1\n)\n;", "(1);", "((1));", "(1;", "1);", "();",
            "a = 1; a = 2; a;", "let a = 1; a = 2; a;", "a = 1; let a = 2; a;", "let a = 1; let a = 2; a;", "a = 1; a = a + 1; a = a + a; a;", "a = a; 1;",
            "a = 1; b = a; a = 2; b;", "a = 1; a = 'x'; a;", "1; 2; 3;", "a = 5;", "let a = 5;", "b;", "a = 1; b = c; b;", "c = d; e = c; e;", "a = b + 1; c = -a; c;",
            "a = f(x); b = a; b;", "a = id_i32(5); entry_arg;", "entry_arg;", "exec_ctx;", "output;", "when 1 { 2; }", "when 1 { 2; } 3;", "in = 1;", "1 in [1];",
            "1 in [1] in [1u8];", "not 1 in [0u8];", "- - -5;", "-+-5;", "!!5;", "~~5;", "!-~+5;", "1--1;", "1+-+-1;", "1<2<3;", "3>2>1;", "1==1==1;", "1 <> 2;", "1 >< 2;",
            "1 <= = 2;", "1 < = 2;", "1 & & 2;", "1 && 2;", "1 and or 2;", "1 | | 2;", "1 ||2;", "8>>1>>1;", "1<<2<<1;", "1 > > 2;", "not not 1;", "notnot 1;", "not1;",
            "not(1);", "and;", "1 and 2;", "1 AND 2;", "1and 2;", "1 and2;", "1or 0;", "1in[1];", "elif;", "else;", "1 else 2;"]
    for k in range(0, len(txs), 24):
        part = [list(t.encode("latin-1")) for t in txs[k:k + 24]]
        st = []
        for j in range(len(part)):
            st += [compile_step(0, [j]), exec_step(0, maybe=1)]
        out.append(scen([], [[]], st, [ENG("expr")], texts=part))
    return out


WORDS = ["let", "when", "if", "elif", "else", "switch", "in", "not", "and", "or", "true", "false", "-", "+", "*", "/", "(", ")", "%", "|", "^", "&", "~", "<<", ">>",
         "==", "=", "!=", "<", "<=", ">", ">=", ",", "[", "]", ";", "{", "}", "entry_arg", "exec_ctx", "output", "a", "b", "id_i32", "1", "2u8", "3i64", "1.5", "2f32",
         "'s'", "!", "<>", "&&", "||", "2147483648", "256u8"]


def soups(seed, n, kind="expr", key="soup"):
    """edited token sequences of valid programs; compiled, not run"""
    out = []
    for i in range(n):
        r = rng(seed, key, kind, i)
        txs = []
        for _ in range(8):
            g = Gen(r) if kind == "expr" else PGen(r)
            pr = Printer(r, g)
            if kind == "expr":
                toks = pr.stmts(seq(expr_progs(r, g, i)))
            else:
                toks = pr.stmts(pipe_prog(r, g, 1))
            if len(toks) > 70:
                toks = toks[:r.randint(20, 70)] + [";"]
            for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
                if not toks:
                    break
                c, p = r.random(), r.randrange(len(toks))
                if c < .3:
                    del toks[p]
                elif c < .5:
                    toks.insert(p, r.choice(WORDS))
                elif c < .7:
                    toks[p] = r.choice(WORDS)
                elif c < .8:
                    q = r.randrange(len(toks))
                    toks[p], toks[q] = toks[q], toks[p]
                elif c < .9:
                    toks.insert(p, toks[p])
                else:
                    q = min(len(toks), p + r.randint(1, 4))
                    del toks[p:q]
            if r.random() < .1:
                toks = [r.choice(WORDS) for _ in range(r.randint(1, 9))] + [";"]
            x = pr.layout(toks)
            if r.random() < .25 and x:      # byte noise
                for _ in range(r.choice([1, 1, 2, 5])):
                    p = r.randrange(len(x))
                    c = r.random()
                    if c < .4:
                        x[p] = r.choice([r.randrange(256), r.choice(b"\"'/*\n;.@0a_\\")])
                    elif c < .7:
                        del x[p]
                        if not x:
                            break
                    else:
                        x.insert(p, r.choice([r.randrange(256), r.choice(b"\"'/*\n;.@0a_\\")]))
            txs.append(x)
        out.append(scen([], [[]], [compile_step(0, [j]) for j in range(len(txs))], [ENG(kind)], texts=txs))
    return out


def noise(seed, n):
    out = []
    for i in range(n):
        r = rng(seed, "bytes", i)
        txs = []
        for _ in range(12):
            al = r.choice([bytes(range(256)), b"\"'\\\n a1;", b"/*\n 1;+", b"0123456789.uif8 ;", b"(){}[];,=1a "])
            txs.append([r.choice(al) for _ in range(r.choice([1, 3, 8, 20, 60]))] + [59] * r.choice([0, 1]))
        out.append(scen([], [[]], [compile_step(0, [j]) for j in range(len(txs))], [ENG("expr")], texts=txs))
    return out


# ---------------------------------------------------------------- pipelines
class PGen(Gen):
    """programs a pipeline text can express: no empty or plain blocks"""
    def stmts(self, n, depth, types):
        return super().stmts(max(1, n), depth, types)

    def block(self, depth, types):
        return self.ifblock(depth, types)


def pipe_prog(r, g, n):
    types = r.sample(NUMS + ["string", "i32list", "f64list", "stringlist"], r.randint(1, 3))
    return seq(g.stmts(r.randint(1, 4), r.randint(1, 3), types))


def pipelines(seed, n, key="pl", bad=.15):
    """several sources over shared inputs and the same variable names, stores and errors in all of them"""
    out = []
    for i in range(n):
        r = rng(seed, key, i)
        g = PGen(r, exactf=i % 3 == 2)
        g.effects = True
        g.errors = r.random() < .35
        steps, txs = [], []
        ctx = lambda: r.choice([-1, 0, 0])
        fresh = 1
        for rnd in range(r.choice([1, 1, 1, 2, 3])):
            ps = []
            shared = r.random() < .6
            for _ in range(r.choice([1, 2, 2, 3, 3, 4, 6])):
                g.vars = []
                if not shared:
                    keep = g.ins
                types = r.sample(NUMS + ["string", "i32list", "f64list", "stringlist"], r.randint(1, 3))
                p = seq(g.stmts(r.choice([1, 2, 3, 4, 6]), r.randint(1, 3), types))
                if r.random() < .5 and g.vars:
                    # the variables as the whole source sees them in the end
                    for v in r.sample(g.vars, min(len(g.vars), 3)):
                        p["a"].append(fn("st_" + v[1], OUT, const("u32", g.newtag()), {"k": "ref", "n": v[0]}))
                        p["v"].append({"n": "", "c": 0})
                ps.append(p)
            if r.random() < bad and len(ps) > 1:
                # a source that reads what only another one defines
                names = [v["n"] for v in ps[0]["v"] if v["n"]] or ["v1"]
                q = r.randrange(1, len(ps)) if r.random() < .7 else 0
                ps[q]["a"].append(fn("st_i64", OUT, const("u32", g.newtag()), fn("id_i64", {"k": "ref", "n": r.choice(names)})))
                ps[q]["v"].append({"n": "", "c": 0})
            pr = Printer(r, g)
            ids = []
            for p in ps:
                ids.append(len(txs))
                txs.append(pr.layout(pr.stmts(p), noisy=r.random() < .3))
            if r.random() < .05:
                txs.append(list(b"a = ;"))
                ids.insert(r.randrange(len(ids) + 1), len(txs) - 1)
            steps.append(compile_step(0, ids))
            for _ in range(r.choice([1, 2, 3])):
                if r.random() < .2 and g.errors:
                    steps.append({"op": "ctxerr", "c": 0, "m": "held%d" % g.newtag()})
                steps.append(exec_step(0, api="void", c=ctx(), inp=1))
        if r.random() < .1:
            steps.insert(0, exec_step(0, api="void", c=ctx()))
        out.append(scen([], [g.inputs()], steps, [ENG("pipe", fp=1 if g.exactf else 0, chunk=r.choice([4096, 64]))], texts=txs))
    return out


def wide(seed, n):
    """many short sources sharing some of their leaves, so that the groups are large and many"""
    out = []
    for i in range(n):
        r = rng(seed, "wide", i)
        g = PGen(r)
        g.effects = True
        leaf = []
        for _ in range(r.choice([1, 2, 4, 8])):
            t = r.choice(NUMS + ["string", "i64list"])
            leaf.append((t, g.newarg(t)))
        txs = []
        pr = Printer(r, g)
        for _ in range(r.choice([3, 8, 14, 24])):
            items = []
            for _ in range(r.choice([1, 1, 2])):
                t, e = r.choice(leaf)
                c = r.random()
                if c < .3:
                    e = bi("+", e, e)
                elif c < .5:
                    e = bi("+", e, g.constant(t, g.payload(t)))
                elif c < .6:
                    items.append(("x", 0, e))
                    e = {"k": "ref", "n": "x"}
                elif c < .7 and t in NUMS:
                    items.append({"k": "ib", "a": [e, seq([fn("tr_" + t, OUT, const("u32", g.newtag()), e)]), seq([("x", 0, e)])]})
                if t in NUMS and c < .5:
                    e = fn("id_" + t, e) if t not in ("i8", "u8", "i16", "u16") else e
                items.append(fn("st_" + t, OUT, const("u32", g.newtag()), e))
            txs.append(pr.layout(pr.stmts(seq(items)), noisy=False))
        out.append(scen([], [g.inputs()], [compile_step(0, list(range(len(txs)))), exec_step(0, api="void", c=0), exec_step(0, api="void")],
                        [ENG("pipe")], texts=txs))
    return out

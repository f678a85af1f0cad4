-------------------------------- MODULE Lang ---------------------------------
(***************************************************************************)
(* Static and dynamic semantics of jitfusion programs (trees of exec       *)
(* nodes).  A node is a record with kind k:                                *)
(*   c  constant [t, v]          cl list constant [t, v]                   *)
(*   ea entry argument  ec exec context  out output                        *)
(*   u  unary [op, a]            b  binary [op, a, b]                      *)
(*   f  call [n, a]              if / sw / ib: [a]                         *)
(*   ref variable [n]            no  sequence [iso, a, v]                  *)
(* Elab is the validator: it decides acceptance and annotates every node   *)
(* with its type rt.  Ev is a big-step evaluator over the annotated tree   *)
(* that threads variables, the store log and the error list in program     *)
(* order.                                                                  *)
(***************************************************************************)
EXTENDS Types, Builtins

ArithOps == {"+", "-", "*", "/", "%"}
RelOps == {">", ">=", "==", "<", "<=", "!="}
LogOps == {"and", "or"}
BitOps == {"&", "|", "^"}
ShiftOps == {"<<", ">>"}

-----------------------------------------------------------------------------
(* Scopes: a stack (sequence) of functions from names to entries, mirrored  *)
(* by the validator (types) and the evaluator (values).                     *)
EmptyScope == [x \in {} |-> 0]
ScPush(s) == Append(s, EmptyScope)
ScPop(s) == SubSeq(s, 1, Len(s) - 1)
ScTop(s) == s[Len(s)]
ScSet(s, n, e) == [s EXCEPT ![Len(s)] = (n :> e) @@ @]
RECURSIVE ScFind(_, _, _)
ScFind(s, n, i) == IF i = 0 THEN 0 ELSE IF n \in DOMAIN s[i] THEN i ELSE ScFind(s, n, i - 1)
ScHas(s, n) == ScFind(s, n, Len(s)) > 0
ScGet(s, n) == s[ScFind(s, n, Len(s))][n]
\* names of the top scope that also exist further out
ScShadowed(s) == {n \in DOMAIN ScTop(s) : ScFind(s, n, Len(s) - 1) > 0}

-----------------------------------------------------------------------------
(* Elaboration.  Result: [ok, n (annotated node), s (scopes after), p].     *)
(* Nodes that come from a text have their extent p = <<b, e>>; that of a    *)
(* rejection is the extent of the construct at fault.  The expressions of   *)
(* a program are checked in order, and the first one at fault is reported.  *)
NoPos == <<0, 0>>
P(n) == IF "p" \in DOMAIN n THEN n.p ELSE NoPos
Rej(s, p) == [ok |-> FALSE, n |-> [k |-> "bad", rt |-> "bad"], s |-> s, p |-> p]
Acc(n, t, s) == [ok |-> TRUE, n |-> n @@ [rt |-> t], s |-> s, p |-> NoPos]

UnaryType(op, t) ==
    IF t \notin NumTypes THEN "bad"
    ELSE CASE op = "+" -> t
           [] op = "-" -> IF t \in {"i8", "u8", "i16", "u16"} THEN "i32" ELSE t
           [] op = "not" -> "u8"
           [] op = "~" -> IF t \in IntTypes THEN t ELSE "bad"
           [] OTHER -> "bad"

BinaryType(op, l, r) ==
    IF l = "void" \/ r = "void" THEN "bad"
    ELSE IF op \in LogOps THEN (IF l \in NumTypes /\ r \in NumTypes THEN "u8" ELSE "bad")
    ELSE IF op \in RelOps
         THEN (IF (l \in NumTypes /\ r \in NumTypes) \/ (l = "string" /\ r = "string") THEN "u8" ELSE "bad")
    ELSE IF op \in BitOps THEN (IF l \in IntTypes /\ r \in IntTypes THEN Promote(l, r) ELSE "bad")
    ELSE IF op \in ShiftOps THEN (IF l \in IntTypes /\ r \in IntTypes THEN l ELSE "bad")
    ELSE IF l \in NumTypes /\ r \in NumTypes THEN Promote(l, r)
    ELSE IF op = "+" /\ l = r /\ (l = "string" \/ l \in ListTypes) THEN l
    ELSE "bad"

\* dividing by an integer literal zero is rejected statically
ConstZero(n) == n.k = "c" /\ n.t \in IntTypes /\ WIsZero(n.v)

BranchType(ts) ==                       \* common type of the values of a switch
    LET nums == {t \in ts : t \in NumTypes}
        rest == ts \ nums
    IN IF rest = {} THEN CHOOSE t \in nums : \A u \in nums : Rank(u) <= Rank(t)
       ELSE IF nums = {} /\ \A t, u \in rest : t = u THEN CHOOSE t \in rest : TRUE
       ELSE "bad"

RECURSIVE Elab(_, _)
RECURSIVE ElabSeq(_, _, _, _, _)
\* elaborate the arguments a[i..] in order in one scope: [ok, ns, s, p].
\* None may be void; whole: the position to report then, <<>> for that of the argument
ElabSeq(a, i, s, acc, whole) ==
    IF i > Len(a) THEN [ok |-> TRUE, ns |-> acc, s |-> s, p |-> NoPos]
    ELSE LET e == TLCEval(Elab(a[i], s))
         IN IF ~e.ok THEN [ok |-> FALSE, ns |-> acc, s |-> s, p |-> e.p]
            ELSE IF e.n.rt = "void" THEN [ok |-> FALSE, ns |-> acc, s |-> s, p |-> IF whole = <<>> THEN P(a[i]) ELSE whole]
            ELSE ElabSeq(a, i + 1, e.s, TLCEval(Append(acc, e.n)), whole)

RECURSIVE ElabStmts(_, _, _, _)
\* statements of a sequence node
ElabStmts(n, i, s, acc) ==
    IF i > Len(n.a) THEN [ok |-> TRUE, ns |-> acc, s |-> s, p |-> NoPos]
    ELSE LET s1 == IF n.iso = 1 THEN ScPush(s) ELSE s
             e == TLCEval(Elab(n.a[i], s1))
         IN IF ~e.ok THEN [ok |-> FALSE, ns |-> acc, s |-> s, p |-> e.p]
            ELSE LET v == n.v[i]
                     old == ScHas(e.s, v.n)
                     ent == ScGet(e.s, v.n)
                     okv == \/ v.n = ""
                            \/ ~old
                            \/ ~ent.c /\ v.c = 0 /\ ent.t = e.n.rt
                     s2 == IF v.n = "" THEN e.s ELSE ScSet(e.s, v.n, [t |-> e.n.rt, c |-> v.c = 1])
                     s3 == IF n.iso = 1 THEN ScPop(s2) ELSE s2
                 IN IF ~okv THEN [ok |-> FALSE, ns |-> acc, s |-> s, p |-> P(n.a[i])]
                    ELSE ElabStmts(n, i + 1, TLCEval(s3), TLCEval(Append(acc, e.n)))

RECURSIVE ElabBranches(_, _, _, _, _)
\* arguments of an if-block: conditions in the current scope, bodies in their own.
\* sh: variables of outer scopes assigned in some branch
ElabBranches(a, i, s, acc, sh) ==
    IF i > Len(a) THEN [ok |-> TRUE, ns |-> acc, s |-> s, sh |-> sh, p |-> NoPos]
    ELSE IF i % 2 = 1 /\ i < Len(a)
    THEN LET e == TLCEval(Elab(a[i], s))
         IN IF ~e.ok \/ e.n.rt \notin NumTypes THEN [ok |-> FALSE, ns |-> acc, s |-> s, sh |-> sh, p |-> IF e.ok THEN P(a[i]) ELSE e.p]
            ELSE ElabBranches(a, i + 1, e.s, TLCEval(Append(acc, e.n)), sh)
    ELSE LET e == TLCEval(Elab(a[i], ScPush(s)))
         IN IF ~e.ok \/ e.n.rt # "void" THEN [ok |-> FALSE, ns |-> acc, s |-> s, sh |-> sh, p |-> IF e.ok THEN P(a[i]) ELSE e.p]
            ELSE ElabBranches(a, i + 1, ScPop(e.s), TLCEval(Append(acc, e.n)),
                              TLCEval([x \in ScShadowed(e.s) |-> [t |-> ScTop(e.s)[x].t, c |-> FALSE]] @@ sh))

Elab(n, s) ==
    CASE n.k = "c" -> Acc(n, n.t, s)
      [] n.k = "cl" -> Acc(n, n.t, s)
      [] n.k \in {"ea", "ec", "out"} -> Acc(n, "ptr", s)
      [] n.k = "u" ->
            LET e == TLCEval(Elab(n.a, s)) t == UnaryType(n.op, e.n.rt)
            IN IF ~e.ok THEN Rej(s, e.p) ELSE IF t = "bad" THEN Rej(s, P(n))
               ELSE Acc([k |-> "u", op |-> n.op, a |-> e.n], t, e.s)
      [] n.k = "b" ->
            LET l == TLCEval(Elab(n.a, s))
                r == TLCEval(Elab(n.b, l.s))
            IN IF ~l.ok THEN Rej(s, l.p) ELSE IF ~r.ok THEN Rej(s, r.p)
               ELSE LET t == BinaryType(n.op, l.n.rt, r.n.rt)
                    IN IF t = "bad" \/ (n.op \in {"/", "%"} /\ ConstZero(n.b)) THEN Rej(s, P(n))
                       ELSE Acc([k |-> "b", op |-> n.op, a |-> l.n, b |-> r.n], t, r.s)
      [] n.k = "f" ->
            LET e == TLCEval(ElabSeq(n.a, 1, s, <<>>, P(n)))
            IN IF ~e.ok THEN Rej(s, e.p)
               ELSE LET ts == TLCEval([i \in 1..Len(e.ns) |-> e.ns[i].rt])
                        t == FnRet(n.n, ts)
                    IN IF t = "none" THEN Rej(s, P(n))
                       ELSE Acc([k |-> "f", n |-> n.n, a |-> e.ns], t, e.s)
      [] n.k = "if" ->
            LET e == TLCEval(ElabSeq(n.a, 1, s, <<>>, <<>>))
            IN IF Len(n.a) # 3 THEN Rej(s, P(n)) ELSE IF ~e.ok THEN Rej(s, e.p)
               ELSE LET c == e.ns[1].rt  x == e.ns[2].rt  y == e.ns[3].rt
                    IN IF c \notin NumTypes THEN Rej(s, P(n.a[1]))
                       ELSE IF x \in NumTypes /\ y \in NumTypes THEN Acc([k |-> "if", a |-> e.ns], Promote(x, y), e.s)
                       ELSE IF x = y THEN Acc([k |-> "if", a |-> e.ns], x, e.s) ELSE Rej(s, P(n))
      [] n.k = "sw" ->
            LET e == TLCEval(ElabSeq(n.a, 1, s, <<>>, <<>>))
                m == Len(n.a)
            IN IF m % 2 = 0 THEN Rej(s, P(n)) ELSE IF ~e.ok THEN Rej(s, e.p)
               ELSE LET isCond(i) == i % 2 = 1 /\ i < m
                        rt(i) == e.ns[i].rt
                        t == BranchType({rt(i) : i \in {j \in 1..m : ~isCond(j)}})
                        \* a condition that is no number; a branch unlike an earlier one
                        badc == {i \in 1..m : isCond(i) /\ rt(i) \notin NumTypes}
                        badb == {i \in 1..m : /\ ~isCond(i) /\ rt(i) \notin NumTypes
                                              /\ \E j \in 1..i - 1 : ~isCond(j) /\ rt(j) \notin NumTypes /\ rt(j) # rt(i)}
                        bad == badc \cup badb
                    IN IF bad # {} THEN Rej(s, P(n.a[CHOOSE i \in bad : \A j \in bad : i <= j]))
                       ELSE IF t = "bad" THEN Rej(s, P(n))
                       ELSE Acc([k |-> "sw", a |-> e.ns], t, e.s)
      [] n.k = "ib" ->
            LET e == TLCEval(ElabBranches(n.a, 1, s, <<>>, EmptyScope))
            IN IF Len(n.a) < 2 THEN Rej(s, P(n)) ELSE IF ~e.ok THEN Rej(s, e.p)
               ELSE Acc([k |-> "ib", a |-> e.ns], "void",
                        [e.s EXCEPT ![Len(e.s)] = e.sh @@ @])
      [] n.k = "ref" -> IF ScHas(s, n.n) THEN Acc(n, ScGet(s, n.n).t, s) ELSE Rej(s, P(n))
      [] n.k = "no" ->
            LET e == TLCEval(ElabStmts(n, 1, s, <<>>))
            IN IF ~e.ok THEN Rej(s, e.p) ELSE Acc([k |-> "no", iso |-> n.iso, v |-> n.v, a |-> e.ns], "void", e.s)
      [] OTHER -> Rej(s, P(n))

\* a whole program: its own fresh scope
ElabRoot(n) == Elab(n, <<EmptyScope>>)

-----------------------------------------------------------------------------
(* Evaluation.  State st = [sc (scopes), log, err, in (arguments)].         *)
(* Result r = [v (value), st].                                              *)
NoVal == [t |-> "void", v |-> <<>>]
Res(v, st) == [v |-> v, st |-> st]

RelHolds(op, c) ==
    CASE op = ">"  -> c = 1
      [] op = ">=" -> c \in {0, 1}
      [] op = "==" -> c = 0
      [] op = "<"  -> c = -1
      [] op = "<=" -> c \in {-1, 0}
      [] op = "!=" -> c # 0

EvUnary(op, x, rt) ==
    CASE op = "+" -> x
      [] op = "-" -> Val(rt, NumNeg(Conv(x.v, x.t, rt), rt))
      [] op = "not" -> IF x.t \in IntTypes THEN Bool(WIsZero(x.v)) ELSE Bool(FIsZero(x.v))
      [] op = "~" -> Val(rt, BNot(x.v))

EvBinary(op, x, y, rt) ==
    IF op \in RelOps
    THEN IF x.t = "string" THEN Bool(RelHolds(op, StrCmp(x.v, y.v)))
         ELSE LET p == Promote(x.t, y.t)
              IN Bool(RelHolds(op, NumCmp(Conv(x.v, x.t, p), Conv(y.v, y.t, p), p)))
    ELSE IF x.t \notin NumTypes THEN Val(rt, x.v \o y.v)
    ELSE LET a == Conv(x.v, x.t, rt)
             b == Conv(y.v, y.t, rt)
         IN Val(rt, CASE op = "+" -> NumAdd(a, b, rt)
                      [] op = "-" -> NumSub(a, b, rt)
                      [] op = "*" -> NumMul(a, b, rt)
                      [] op = "/" -> NumDiv(a, b, rt)
                      [] op = "%" -> NumMod(a, b, rt)
                      [] op = "&" -> BAnd(a, b)
                      [] op = "|" -> BOr(a, b)
                      [] op = "^" -> BXor(a, b)
                      [] op = "<<" -> WShl(a, b[1])
                      [] op = ">>" -> IF IsSigned(rt) THEN WShrA(a, b[1]) ELSE WShrL(a, b[1]))

RECURSIVE Ev(_, _)
RECURSIVE EvArgs(_, _, _, _)
EvArgs(a, i, st, acc) ==
    IF i > Len(a) THEN [vs |-> acc, st |-> st]
    ELSE LET r == TLCEval(Ev(a[i], st)) IN EvArgs(a, i + 1, r.st, TLCEval(Append(acc, r.v)))
RECURSIVE EvStmts(_, _, _)
EvStmts(n, i, st) ==
    IF i > Len(n.a) THEN st
    ELSE LET s1 == IF n.iso = 1 THEN [st EXCEPT !.sc = ScPush(@)] ELSE st
             r == TLCEval(Ev(n.a[i], s1))
             s2 == IF n.v[i].n = "" THEN r.st ELSE [r.st EXCEPT !.sc = ScSet(@, n.v[i].n, r.v)]
         IN EvStmts(n, i + 1, TLCEval(IF n.iso = 1 THEN [s2 EXCEPT !.sc = ScPop(@)] ELSE s2))
RECURSIVE EvSwitch(_, _, _, _)
EvSwitch(a, i, rt, st) ==
    IF i = Len(a)
    THEN LET r == TLCEval(Ev(a[i], st)) IN Res(IF rt \in NumTypes THEN Val(rt, Conv(r.v.v, r.v.t, rt)) ELSE r.v, r.st)
    ELSE LET c == TLCEval(Ev(a[i], st))
         IN IF Truthy(c.v.v, c.v.t)
            THEN LET r == TLCEval(Ev(a[i + 1], c.st))
                 IN Res(IF rt \in NumTypes THEN Val(rt, Conv(r.v.v, r.v.t, rt)) ELSE r.v, r.st)
            ELSE EvSwitch(a, i + 2, rt, c.st)
\* run a branch body in its own scope; assignments to outer variables persist
EvBody(b, st) ==
    LET r == TLCEval(Ev(b, [st EXCEPT !.sc = ScPush(@)]))
        keep == ScShadowed(r.st.sc)
        top == ScTop(r.st.sc)
        sc1 == ScPop(r.st.sc)
    IN [r.st EXCEPT !.sc = [sc1 EXCEPT ![Len(sc1)] = [x \in keep |-> top[x]] @@ @]]
RECURSIVE EvBlock(_, _, _)
EvBlock(a, i, st) ==
    IF i > Len(a) THEN st
    ELSE IF i = Len(a) THEN EvBody(a[i], st)
    ELSE LET c == TLCEval(Ev(a[i], st))
         IN IF Truthy(c.v.v, c.v.t) THEN EvBody(a[i + 1], c.st) ELSE EvBlock(a, i + 2, c.st)

Ev(n, st) ==
    CASE n.k \in {"c", "cl"} -> Res(Val(n.t, n.v), st)
      [] n.k \in {"ea", "ec", "out"} -> Res(Val("ptr", n.k), st)
      [] n.k = "u" -> LET r == TLCEval(Ev(n.a, st)) IN Res(EvUnary(n.op, r.v, n.rt), r.st)
      [] n.k = "b" ->
            LET l == TLCEval(Ev(n.a, st))
            IN IF n.op \in LogOps
               THEN LET lb == Truthy(l.v.v, l.v.t)
                    IN IF (n.op = "and" /\ ~lb) \/ (n.op = "or" /\ lb) THEN Res(Bool(lb), l.st)
                       ELSE LET r == TLCEval(Ev(n.b, l.st)) IN Res(Bool(Truthy(r.v.v, r.v.t)), r.st)
               ELSE LET r == TLCEval(Ev(n.b, l.st)) IN Res(EvBinary(n.op, l.v, r.v, n.rt), r.st)
      [] n.k = "f" ->
            LET e == TLCEval(EvArgs(n.a, 1, st, <<>>))
                f == TLCEval(FnEval(n.n, e.vs, e.st.in, n.rt))
            IN Res(f.v, [e.st EXCEPT !.log = @ \o f.log, !.err = @ \o f.err, !.fail = @ \/ f.fail])
      [] n.k = "if" ->
            LET c == TLCEval(Ev(n.a[1], st))
                r == TLCEval(Ev(n.a[IF Truthy(c.v.v, c.v.t) THEN 2 ELSE 3], c.st))
            IN Res(IF n.rt \in NumTypes THEN Val(n.rt, Conv(r.v.v, r.v.t, n.rt)) ELSE r.v, r.st)
      [] n.k = "sw" -> EvSwitch(n.a, 1, n.rt, st)
      [] n.k = "ib" -> Res(NoVal, EvBlock(n.a, 1, st))
      [] n.k = "ref" -> Res(ScGet(st.sc, n.n), st)
      [] n.k = "no" -> Res(NoVal, EvStmts(n, 1, st))

Run(n, in) == Ev(n, [sc |-> <<EmptyScope>>, log |-> <<>>, err |-> <<>>, fail |-> FALSE, in |-> in])
=============================================================================

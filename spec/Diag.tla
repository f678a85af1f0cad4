--------------------------------- MODULE Diag ---------------------------------
(***************************************************************************)
(* Diagnostics.  The report of a rejected text x is                        *)
(*                                                                         *)
(*   error: <message>                                                      *)
(*     --> line L, column C                                                *)
(*      |                                                                  *)
(*    L | <line L of the text, verbatim>                                   *)
(*      |    ^^^^                                                          *)
(*                                                                         *)
(* for the extent <<b, e>> (first byte, byte after the last) of the        *)
(* construct at fault; every line the construct touches is quoted and      *)
(* underlined.  Lines and columns count from 1, columns in bytes.  The     *)
(* wording of the message is free.                                         *)
(***************************************************************************)
EXTENDS Engine, Dsl

\* the first byte of each line
LineStarts(x) == <<1>> \o TLCEval(FoldL([i \in 1..Len(x) |-> i], <<>>, LAMBDA z, i : IF x[i] = 10 THEN Append(z, i + 1) ELSE z))
LineAt(ls, b) == CHOOSE i \in 1..Len(ls) : ls[i] <= b /\ (i = Len(ls) \/ ls[i + 1] > b)
LineText(x, ls, i) == SubSeq(x, ls[i], IF i = Len(ls) THEN Len(x) ELSE ls[i + 1] - 2)
RECURSIVE DecBytes(_)
DecBytes(n) == IF n < 10 THEN <<48 + n>> ELSE DecBytes(n \div 10) \o <<48 + (n % 10)>>
Fill(n, c) == [i \in 1..n |-> c]
PadLeft(q, n) == Fill(MaxI(0, n - Len(q)), 32) \o q

ArrowBytes == <<10, 32, 32, 45, 45, 62, 32, 108, 105, 110, 101, 32>>          \* "\n  --> line "
ColumnBytes == <<44, 32, 99, 111, 108, 117, 109, 110, 32>>                    \* ", column "
BarBytes == <<32, 124>>                                                       \* " |"
ErrorBytes == <<101, 114, 114, 111, 114, 58, 32>>                             \* "error: "

QuotedLine(x, ls, g, i, b, bl, e, el) ==
    LET t == LineText(x, ls, i)
        from == IF i = bl THEN b - ls[i] + 1 ELSE 1
        to == IF i = el THEN MaxI(from + 1, e - ls[i] + 1) ELSE Len(t) + 1
    IN <<10, 32>> \o PadLeft(DecBytes(i), g) \o BarBytes \o <<32>> \o t
       \o <<10, 32>> \o Fill(g, 32) \o BarBytes \o <<32>> \o Fill(from - 1, 32) \o Fill(MaxI(1, to - from), 94)
RECURSIVE QuotedFrom(_, _, _, _, _, _, _, _)
QuotedFrom(x, ls, g, i, b, bl, e, el) ==
    IF i > el THEN <<>>
    ELSE QuotedLine(x, ls, g, i, b, bl, e, el) \o QuotedFrom(x, ls, g, i + 1, b, bl, e, el)
\* what follows the message
Tail_(x, ls, p) ==
    LET bl == LineAt(ls, p[1])
        el == MaxI(bl, LineAt(ls, p[2]))
        g == Len(DecBytes(el))
    IN ArrowBytes \o DecBytes(bl) \o ColumnBytes \o DecBytes(p[1] - ls[bl] + 1)
       \o <<10, 32>> \o Fill(g, 32) \o BarBytes \o TLCEval(QuotedFrom(x, ls, g, bl, p[1], bl, p[2], el))
\* m is a report about text x for an extent p
Reports(x, ls, m, p) ==
    LET t == IF x = <<>> \/ p = NoPos THEN <<>> ELSE TLCEval(Tail_(x, ls, p))
        k == Len(m) - Len(t)
    IN /\ k > 7
       /\ SubSeq(m, 1, 7) = ErrorBytes
       /\ SubSeq(m, k + 1, Len(m)) = t
       /\ \A i \in 8..k : m[i] # 10

\* the whole report, with the notes and hints that follow, of the class that renders it
NoteBytes == <<32, 61, 32, 110, 111, 116, 101, 58, 32>>                       \* " = note: "
HintBytes == <<32, 61, 32, 104, 105, 110, 116, 58, 32>>                       \* " = hint: "
WarningBytes == <<119, 97, 114, 110, 105, 110, 103, 58, 32>>                  \* "warning: "
RECURSIVE Lines_(_, _, _)
Lines_(head, qs, i) == IF i > Len(qs) THEN <<>> ELSE head \o qs[i] \o Lines_(head, qs, i + 1)
Rendered(x, ls, r) ==
    LET located == "p" \in DOMAIN r /\ x # <<>>
        g == IF located THEN Len(DecBytes(MaxI(LineAt(ls, r.p[1]), LineAt(ls, r.p[2])))) ELSE 0
        head == <<10, 32>> \o Fill(g, 32)
    IN (IF r.warn = 1 THEN WarningBytes ELSE ErrorBytes) \o r.m
       \o (IF located THEN Tail_(x, ls, r.p) ELSE <<>>)
       \o Lines_(head \o NoteBytes, r.notes, 1) \o Lines_(head \o HintBytes, r.hints, 1)

-----------------------------------------------------------------------------
(* Where a text goes wrong: [build (found before any types are checked),   *)
(* ps (the extents any of which may be reported)].                         *)
NoFault == [any |-> FALSE, build |-> FALSE, ps |-> {}]
Fault(build, ps) == [any |-> TRUE, build |-> build, ps |-> ps]

\* where the text stops being one: a token that does not fit, up to any byte if it has no end
SyntaxExtents(x, t) ==
    LET k == t.k[MinI(t.i, Len(t.k))]
    IN IF k.t = "bad" /\ x[k.b] \in {34, 39} THEN {<<k.b, e>> : e \in k.b + 1..Len(x) + 1} ELSE {<<k.b, k.e>>}
\* a block is no part of an expression text; it is reported when it is complete
WhenExtents(t) == {<<t.k[i].b, t.k[i].e>> : i \in {j \in 1..MinI(Len(t.k), t.i) : t.k[j].t = "when"}}

\* the first variable of a pipeline text that is not defined where it is read;
\* d: the names defined so far.  Result [p, d]
RECURSIVE UndefIn(_, _)
RECURSIVE UndefArgs(_, _, _)
RECURSIVE UndefStmts(_, _, _)
UndefArgs(a, i, d) ==
    IF i > Len(a) THEN NoPos
    ELSE LET p == TLCEval(UndefIn(a[i], d)) IN IF p # NoPos THEN p ELSE UndefArgs(a, i + 1, d)
UndefIn(n, d) ==
    CASE n.k = "ref" -> IF n.n \in d THEN NoPos ELSE n.p
      [] n.k = "u" -> UndefIn(n.a, d)
      [] n.k = "b" -> LET p == TLCEval(UndefIn(n.a, d)) IN IF p # NoPos THEN p ELSE UndefIn(n.b, d)
      [] n.k \in {"if", "sw", "f", "ib"} -> UndefArgs(n.a, 1, d)
      [] n.k = "blk" -> UndefStmts(n.a, 1, d)           \* what a block defines is its own
      [] OTHER -> NoPos
UndefStmts(ss, i, d) ==
    IF i > Len(ss) THEN NoPos
    ELSE LET p == TLCEval(UndefIn(ss[i].e, d))
         IN IF p # NoPos THEN p ELSE UndefStmts(ss, i + 1, IF ss[i].n = <<>> THEN d ELSE d \cup {ss[i].n})

TypeFault(n) == LET e == TLCEval(ElabRoot(n)) IN IF e.ok THEN NoFault ELSE Fault(FALSE, {e.p})
TextFault(kind, x) ==
    LET t == TLCEval(ParseText(x))
        whens == IF kind = "expr" THEN TLCEval(WhenExtents(t)) ELSE {}
    IN IF ~t.ok THEN Fault(TRUE, SyntaxExtents(x, t) \cup whens)
       ELSE IF kind = "expr"
       THEN IF whens # {} THEN Fault(TRUE, whens)
            ELSE LET d == TLCEval(ExprFrom(t.n, 1, <<>>, {}))
                 IN IF ~d.ok THEN Fault(TRUE, {d.p}) ELSE TypeFault(d.n)
       ELSE LET p == TLCEval(UndefStmts(t.n, 1, {}))
            IN IF p # NoPos THEN Fault(TRUE, {p}) ELSE TypeFault(NamedStmts(t.n))
\* m is a report about one of the rejected texts xs
DiagOk(kind, xs, m) ==
    \E i \in 1..Len(xs) :
        LET f == TLCEval(TextFault(kind, xs[i]))
            ls == TLCEval(LineStarts(xs[i]))
        IN f.any /\ \E p \in f.ps : Reports(xs[i], ls, m, p)
=============================================================================

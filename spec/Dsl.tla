--------------------------------- MODULE Dsl ---------------------------------
(***************************************************************************)
(* The text language: from the bytes of a source to a program of Lang.     *)
(*                                                                         *)
(* Lex yields the tokens [t, v, b, e]: kind, value, first byte and the     *)
(* byte after the last one (1-based).  Layout (blanks, newlines, comments) *)
(* is dropped.  An unknown character or a literal that does not fit is a   *)
(* token of kind "bad".  Parse is a precedence climber over the tokens;    *)
(* nodes carry their extent as p = <<b, e>>.                               *)
(***************************************************************************)
EXTENDS Types

DigitCh(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsWord(c) == DigitCh(c) \/ IsAlpha(c) \/ c = 95
IsBlank(c) == c \in {32, 9, 13, 10}
ChAt(x, i) == IF i <= Len(x) THEN x[i] ELSE 0 - 1

RECURSIVE SkipDigits(_, _)
SkipDigits(x, i) == IF DigitCh(ChAt(x, i)) THEN SkipDigits(x, i + 1) ELSE i
RECURSIVE SkipWord(_, _)
SkipWord(x, i) == IF IsWord(ChAt(x, i)) THEN SkipWord(x, i + 1) ELSE i
RECURSIVE SkipLine(_, _)
SkipLine(x, i) == IF i > Len(x) \/ ChAt(x, i) = 10 THEN i ELSE SkipLine(x, i + 1)
RECURSIVE CommentEnd(_, _)
\* the index after "*/", or 0
CommentEnd(x, i) == IF i + 1 > Len(x) THEN 0
                    ELSE IF x[i] = 42 /\ x[i + 1] = 47 THEN i + 2 ELSE CommentEnd(x, i + 1)
RECURSIVE StringEnd(_, _, _)
\* the index of the closing quote, or 0; a backslash takes any next character but a newline
StringEnd(x, i, q) ==
    IF i > Len(x) THEN 0
    ELSE IF x[i] = q THEN i
    ELSE IF x[i] = 92 THEN (IF i + 1 > Len(x) \/ ChAt(x, i + 1) = 10 THEN 0 ELSE StringEnd(x, i + 2, q))
    ELSE StringEnd(x, i + 1, q)
\* the index after the layout that starts at i, or i if none does
LayoutEnd(x, i) ==
    IF IsBlank(x[i]) THEN i + 1
    ELSE IF x[i] = 47 /\ ChAt(x, i + 1) = 47 THEN SkipLine(x, i)
    ELSE IF x[i] = 47 /\ ChAt(x, i + 1) = 42 THEN (LET j == CommentEnd(x, i + 2) IN IF j > 0 THEN j ELSE i)
    ELSE i

\* bytes of the keywords and operators
KeywordTab == (<<108, 101, 116>> :> "let") @@ (<<119, 104, 101, 110>> :> "when") @@ (<<105, 102>> :> "if")
    @@ (<<101, 108, 105, 102>> :> "elif") @@ (<<101, 108, 115, 101>> :> "else")
    @@ (<<115, 119, 105, 116, 99, 104>> :> "switch") @@ (<<105, 110>> :> "in") @@ (<<110, 111, 116>> :> "not")
    @@ (<<97, 110, 100>> :> "and") @@ (<<111, 114>> :> "or") @@ (<<116, 114, 117, 101>> :> "true")
    @@ (<<102, 97, 108, 115, 101>> :> "false")
    @@ (<<101, 110, 116, 114, 121, 95, 97, 114, 103>> :> "entry_arg")
    @@ (<<101, 120, 101, 99, 95, 99, 116, 120>> :> "exec_ctx") @@ (<<111, 117, 116, 112, 117, 116>> :> "output")
Op2Tab == (<<38, 38>> :> "and") @@ (<<124, 124>> :> "or") @@ (<<61, 61>> :> "==") @@ (<<33, 61>> :> "!=")
    @@ (<<60, 62>> :> "!=") @@ (<<60, 61>> :> "<=") @@ (<<62, 61>> :> ">=") @@ (<<60, 60>> :> "<<") @@ (<<62, 62>> :> ">>")
Op1Tab == (123 :> "{") @@ (125 :> "}") @@ (59 :> ";") @@ (33 :> "not") @@ (45 :> "-") @@ (43 :> "+") @@ (42 :> "*")
    @@ (47 :> "/") @@ (40 :> "(") @@ (41 :> ")") @@ (37 :> "%") @@ (124 :> "|") @@ (94 :> "^") @@ (38 :> "&")
    @@ (126 :> "~") @@ (61 :> "=") @@ (60 :> "<") @@ (62 :> ">") @@ (44 :> ",") @@ (91 :> "[") @@ (93 :> "]")
SuffixTab == (<<117, 56>> :> "u8") @@ (<<117, 49, 54>> :> "u16") @@ (<<117, 51, 50>> :> "u32") @@ (<<117, 54, 52>> :> "u64")
    @@ (<<105, 56>> :> "i8") @@ (<<105, 49, 54>> :> "i16") @@ (<<105, 51, 50>> :> "i32") @@ (<<105, 54, 52>> :> "i64")
FloatSuffixTab == (<<102, 51, 50>> :> "f32") @@ (<<102, 54, 52>> :> "f64")

DigitRun(x, i, j) == SubSeq(x, i, j - 1)
Tok(t, v, b, e) == [t |-> t, v |-> v, b |-> b, e |-> e]

\* An integer literal.  The magnitude of the smallest i32/i64 is a token of its own:
\* it is a literal only after a unary minus.
IntTok(x, i, j, e, t) ==
    LET m == BParse(DigitRun(x, i, j))
        n == Size(t)
        lim == IF t \in SignedInts THEN BPow2(8 * n - 1) ELSE BPow2(8 * n)
    IN IF BLt(m, lim) THEN Tok("lit", [t |-> t, v |-> BFit(m, n)], i, e)
       ELSE IF BEq(m, lim) /\ t \in {"i32", "i64"} THEN Tok("min", [t |-> t, v |-> BFit(m, n)], i, e)
       ELSE Tok("bad", 0, i, e)
\* A float literal: the nearest value of its type.  d..f: digits after the point
FloatTok(x, i, j, f, e, t) ==
    LET ds == DigitRun(x, i, j) \o (IF f > j THEN DigitRun(x, j + 1, f) ELSE <<>>)
        v == FOfDec(0, TLCEval(BParse(ds)), 0 - MaxI(0, f - j - 1), Size(t))
    IN IF FIsInf(v) THEN Tok("bad", 0, i, e) ELSE Tok("lit", [t |-> t, v |-> v], i, e)

SufAt(x, i, n, tab) == IF i + n - 1 <= Len(x) /\ SubSeq(x, i, i + n - 1) \in DOMAIN tab THEN tab[SubSeq(x, i, i + n - 1)] ELSE ""
NumTok(x, i) ==
    LET j == SkipDigits(x, i)
        f3 == SufAt(x, j, 3, FloatSuffixTab)
        i2 == SufAt(x, j, 2, SuffixTab)
        i3 == SufAt(x, j, 3, SuffixTab)
    IN IF ChAt(x, j) = 46
       THEN LET f == SkipDigits(x, j + 1)
                s == SufAt(x, f, 3, FloatSuffixTab)
            IN FloatTok(x, i, j, f, IF s = "" THEN f ELSE f + 3, IF s = "" THEN "f64" ELSE s)
       ELSE IF f3 # "" THEN FloatTok(x, i, j, j, j + 3, f3)
       ELSE IF i3 # "" THEN IntTok(x, i, j, j + 3, i3)
       ELSE IF i2 # "" THEN IntTok(x, i, j, j + 2, i2)
       ELSE IntTok(x, i, j, j, "i32")

\* the token that starts at i (no layout there)
TokAt(x, i) ==
    LET c == x[i]
        d == ChAt(x, i + 1)
    IN IF IsAlpha(c)
       THEN LET j == SkipWord(x, i)
                w == SubSeq(x, i, j - 1)
            IN IF w \in DOMAIN KeywordTab THEN Tok(KeywordTab[w], 0, i, j) ELSE Tok("id", w, i, j)
       ELSE IF DigitCh(c) \/ (c = 46 /\ DigitCh(d)) THEN NumTok(x, i)
       ELSE IF c \in {34, 39}
       THEN LET j == StringEnd(x, i + 1, c)
            IN IF j = 0 THEN Tok("bad", 0, i, i + 1)
               ELSE Tok("lit", [t |-> "string", v |-> SubSeq(x, i + 1, j - 1)], i, j + 1)
       ELSE IF <<c, d>> \in DOMAIN Op2Tab THEN Tok(Op2Tab[<<c, d>>], 0, i, i + 2)
       ELSE IF c \in DOMAIN Op1Tab THEN Tok(Op1Tab[c], 0, i, i + 1)
       ELSE Tok("bad", 0, i, i + 1)

\* z: [i (next byte to look at), k (tokens)]; nothing follows a "bad" token
LexStep(x, z, i) ==
    IF i < z.i THEN z
    ELSE LET j == LayoutEnd(x, i)
         IN IF j > i THEN [z EXCEPT !.i = j]
            ELSE LET t == TLCEval(TokAt(x, i))
                 IN [i |-> IF t.t = "bad" THEN Len(x) + 1 ELSE t.e, k |-> Append(z.k, t)]
Lex(x) ==
    LET z == TLCEval(FoldL([i \in 1..Len(x) |-> i], [i |-> 1, k |-> <<>>], LAMBDA z, i : LexStep(x, z, i)))
    IN IF z.k # <<>> /\ z.k[Len(z.k)].t = "bad" THEN z.k ELSE Append(z.k, Tok("eof", 0, Len(x) + 1, Len(x) + 1))

-----------------------------------------------------------------------------
(* Grammar.  Parsers take tokens k and a position i and return              *)
(* [ok, n (node or list of nodes), i (next position; of the first token    *)
(* that cannot be continued if not ok)].                                   *)
PFail(i) == [ok |-> FALSE, n |-> 0, i |-> i]
POk(n, i) == [ok |-> TRUE, n |-> n, i |-> i]
Prec == ("or" :> 1) @@ ("and" :> 2) @@ ("in" :> 3) @@ ("|" :> 4) @@ ("^" :> 5) @@ ("&" :> 6)
    @@ ("==" :> 7) @@ ("!=" :> 7) @@ ("<" :> 8) @@ ("<=" :> 8) @@ (">" :> 8) @@ (">=" :> 8)
    @@ ("<<" :> 9) @@ (">>" :> 9) @@ ("-" :> 10) @@ ("+" :> 10) @@ ("*" :> 11) @@ ("/" :> 11) @@ ("%" :> 11)
UnaryToks == {"-", "+", "not", "~"}
Ext(k, i, j) == <<k[i].b, k[j].e>>          \* extent of the tokens i..j

RECURSIVE ListItems(_, _, _, _)
\* the literals of a list, all of the type of the first
ListItems(k, i, t, acc) ==
    IF k[i].t # "lit" THEN PFail(i)
    ELSE IF k[i].v.t # t THEN PFail(i)
    ELSE LET a == TLCEval(Append(acc, k[i].v.v))
         IN IF k[i + 1].t = "]" THEN POk(a, i + 2)
            ELSE IF k[i + 1].t = "," THEN ListItems(k, i + 2, t, a)
            ELSE PFail(i + 1)

RECURSIVE PTerm(_, _, _)
RECURSIVE PUnary(_, _)
RECURSIVE PClimb(_, _, _, _, _)
RECURSIVE PArgs(_, _, _)
\* arguments up to ")"
PArgs(k, i, acc) ==
    LET a == TLCEval(PTerm(k, i, 1))
    IN IF ~a.ok THEN a
       ELSE IF k[a.i].t = ")" THEN POk(Append(acc, a.n), a.i + 1)
       ELSE IF k[a.i].t = "," THEN PArgs(k, a.i + 1, TLCEval(Append(acc, a.n)))
       ELSE PFail(a.i)
PCall(k, i, kind) ==            \* name or keyword at i, "(" expected next
    IF k[i + 1].t # "(" THEN PFail(i + 1)
    ELSE IF kind = "f" /\ k[i + 2].t = ")" THEN POk([k |-> "f", n |-> k[i].v, a |-> <<>>, p |-> Ext(k, i, i + 2)], i + 3)
    ELSE LET a == TLCEval(PArgs(k, i + 2, <<>>))
         IN IF ~a.ok THEN a
            ELSE POk([k |-> kind, n |-> k[i].v, a |-> a.n, p |-> Ext(k, i, a.i - 1)], a.i)
PPrimary(k, i) ==
    LET t == k[i].t
        leaf(n) == POk(n @@ [p |-> Ext(k, i, i)], i + 1)
    IN CASE t = "lit" -> leaf([k |-> "c", t |-> k[i].v.t, v |-> k[i].v.v])
         [] t = "true" -> leaf([k |-> "c", t |-> "u8", v |-> <<1>>])
         [] t = "false" -> leaf([k |-> "c", t |-> "u8", v |-> <<0>>])
         [] t = "entry_arg" -> leaf([k |-> "ea"])
         [] t = "exec_ctx" -> leaf([k |-> "ec"])
         [] t = "output" -> leaf([k |-> "out"])
         [] t = "if" -> PCall(k, i, "if")
         [] t = "switch" -> PCall(k, i, "sw")
         [] t = "id" -> IF k[i + 1].t = "(" THEN PCall(k, i, "f") ELSE leaf([k |-> "ref", n |-> k[i].v])
         [] t = "(" -> LET e == TLCEval(PTerm(k, i + 1, 1))
                       IN IF ~e.ok THEN e
                          ELSE IF k[e.i].t # ")" THEN PFail(e.i)
                          ELSE POk(e.n, e.i + 1)
         [] t = "[" -> IF k[i + 1].t # "lit" THEN PFail(i + 1)
                       ELSE LET e == TLCEval(ListItems(k, i + 1, k[i + 1].v.t, <<>>))
                            IN IF ~e.ok THEN e
                               ELSE POk([k |-> "cl", t |-> ListOf(k[i + 1].v.t), v |-> e.n, p |-> Ext(k, i, e.i - 1)], e.i)
         [] OTHER -> PFail(i)
PUnary(k, i) ==
    IF k[i].t \in UnaryToks
    THEN IF k[i].t = "-" /\ k[i + 1].t = "min"
         THEN POk([k |-> "c", t |-> k[i + 1].v.t, v |-> k[i + 1].v.v, p |-> Ext(k, i, i + 1)], i + 2)
         ELSE LET e == TLCEval(PUnary(k, i + 1))
              IN IF ~e.ok THEN e
                 ELSE POk([k |-> "u", op |-> k[i].t, a |-> e.n, p |-> Ext(k, i, e.i - 1)], e.i)
    ELSE PPrimary(k, i)
\* s: the token where the left operand starts
PClimb(k, l, s, i, p) ==
    IF ~(k[i].t \in DOMAIN Prec) THEN POk(l, i)
    ELSE IF Prec[k[i].t] < p THEN POk(l, i)
    ELSE LET o == k[i].t
             r == TLCEval(PTerm(k, i + 1, Prec[o] + 1))
         IN IF ~r.ok THEN r
            ELSE LET x == Ext(k, s, r.i - 1)
                     n == IF o = "in" THEN [k |-> "f", n |-> <<105, 110>>, a |-> <<l, r.n>>, p |-> x]
                          ELSE [k |-> "b", op |-> o, a |-> l, b |-> r.n, p |-> x]
                 IN PClimb(k, TLCEval(n), s, r.i, p)
PTerm(k, i, p) == LET u == TLCEval(PUnary(k, i)) IN IF ~u.ok THEN u ELSE PClimb(k, u.n, i, u.i, p)

-----------------------------------------------------------------------------
(* Statements [n (name or <<>>), c (let), e (expression)].  A when-block is  *)
(* the statement of an "ib" node whose bodies are lists of statements:      *)
(* [k |-> "blk", a |-> statements].                                        *)
RECURSIVE PStmts(_, _, _)
RECURSIVE PChain(_, _, _)
Stmt(n, c, e) == [n |-> n, c |-> c, e |-> e]
PAssign(k, i, c) ==              \* name at i, "=" next
    LET e == TLCEval(PTerm(k, i + 2, 1))
    IN IF ~e.ok THEN e
       ELSE IF k[e.i].t # ";" THEN PFail(e.i)
       ELSE POk(Stmt(k[i].v, c, e.n), e.i + 1)
PBlock(k, i) ==                  \* "{" statements "}" at i
    IF k[i].t # "{" THEN PFail(i)
    ELSE LET b == TLCEval(PStmts(k, i + 1, TRUE))
         IN IF ~b.ok THEN b ELSE POk([k |-> "blk", a |-> b.n, p |-> <<0, 0>>], b.i)
PCondBlock(k, i) ==              \* expression and block
    LET c == TLCEval(PTerm(k, i, 1))
    IN IF ~c.ok THEN c
       ELSE LET b == TLCEval(PBlock(k, c.i)) IN IF ~b.ok THEN b ELSE POk(<<c.n, b.n>>, b.i)
PChain(k, i, acc) ==
    IF k[i].t = "elif"
    THEN LET c == TLCEval(PCondBlock(k, i + 1)) IN IF ~c.ok THEN c ELSE PChain(k, c.i, TLCEval(acc \o c.n))
    ELSE IF k[i].t = "else"
    THEN LET b == TLCEval(PBlock(k, i + 1)) IN IF ~b.ok THEN b ELSE PChain(k, b.i, TLCEval(Append(acc, b.n)))
    ELSE POk(acc, i)
PStmt(k, i) ==
    IF k[i].t = "let"
    THEN IF k[i + 1].t # "id" THEN PFail(i + 1)
         ELSE IF k[i + 2].t # "=" THEN PFail(i + 2)
         ELSE PAssign(k, i + 1, 1)
    ELSE IF k[i].t = "id" /\ k[i + 1].t = "=" THEN PAssign(k, i, 0)
    ELSE IF k[i].t = "when"
    THEN LET c == TLCEval(PCondBlock(k, i + 1))
         IN IF ~c.ok THEN c
            ELSE LET r == TLCEval(PChain(k, c.i, c.n))
                 IN IF ~r.ok THEN r ELSE POk(Stmt(<<>>, 0, [k |-> "ib", a |-> r.n, p |-> Ext(k, i, r.i - 1)]), r.i)
    ELSE LET e == TLCEval(PTerm(k, i, 1))
         IN IF ~e.ok THEN e
            ELSE IF k[e.i].t # ";" THEN PFail(e.i)
            ELSE POk(Stmt(<<>>, 0, e.n), e.i + 1)
\* at least one statement, up to the end of the text or of the block
\* z: [ok, done, i, n (statements)]
StmtStep(k, z, end) ==
    IF z.done THEN z
    ELSE LET s == TLCEval(PStmt(k, z.i))
         IN IF ~s.ok THEN [ok |-> FALSE, done |-> TRUE, n |-> 0, i |-> s.i]
            ELSE [ok |-> TRUE, done |-> k[s.i].t = end, n |-> Append(z.n, s.n), i |-> s.i]
PStmts(k, i, inblock) ==
    LET z == TLCEval(FoldL([j \in 1..((Len(k) - i) \div 2) + 1 |-> j],
                           [ok |-> TRUE, done |-> FALSE, n |-> <<>>, i |-> i],
                           LAMBDA y, j : StmtStep(k, y, IF inblock THEN "}" ELSE "eof")))
    IN IF z.ok THEN POk(z.n, z.i + (IF inblock THEN 1 ELSE 0)) ELSE PFail(z.i)
\* the statements of a source text: [ok, n, i, k (tokens)]
ParseText(x) ==
    LET k == TLCEval(Lex(x))
        pad == TLCEval(k \o [j \in 1..3 |-> k[Len(k)]])      \* look-ahead never leaves the sequence
    IN TLCEval(PStmts(pad, 1, FALSE)) @@ [k |-> k]

-----------------------------------------------------------------------------
(* From statements to programs.                                            *)
\* names are strings in Lang
Ascii == "0123456789.......ABCDEFGHIJKLMNOPQRSTUVWXYZ...._.abcdefghijklmnopqrstuvwxyz"
RECURSIVE NameFrom(_, _, _)
NameFrom(w, i, acc) == IF i > Len(w) THEN acc ELSE NameFrom(w, i + 1, acc \o SubSeq(Ascii, w[i] - 47, w[i] - 47))
Name(w) == NameFrom(w, 1, "")
Bad == [ok |-> FALSE, n |-> [k |-> "bad"], p |-> <<0, 0>>]
Good(n) == [ok |-> TRUE, n |-> n, p |-> <<0, 0>>]

RECURSIVE Subst(_, _)
RECURSIVE SubstAll(_, _, _, _)
\* expression n with the variables of env (name -> expression) replaced; p: the first undefined one
SubstAll(a, i, env, acc) ==
    IF i > Len(a) THEN [ok |-> TRUE, n |-> acc, p |-> <<0, 0>>]
    ELSE LET e == TLCEval(Subst(a[i], env))
         IN IF ~e.ok THEN e ELSE SubstAll(a, i + 1, env, TLCEval(Append(acc, e.n)))
Subst(n, env) ==
    CASE n.k = "ref" -> IF n.n \in DOMAIN env THEN Good([env[n.n] EXCEPT !.p = n.p]) ELSE [Bad EXCEPT !.p = n.p]
      [] n.k = "u" -> LET e == TLCEval(Subst(n.a, env)) IN IF ~e.ok THEN e ELSE Good([n EXCEPT !.a = e.n])
      [] n.k = "b" -> LET e == TLCEval(Subst(n.a, env)) IN IF ~e.ok THEN e
                      ELSE LET f == TLCEval(Subst(n.b, env)) IN IF ~f.ok THEN f ELSE Good([n EXCEPT !.a = e.n, !.b = f.n])
      [] n.k \in {"if", "sw"} -> LET e == TLCEval(SubstAll(n.a, 1, env, <<>>)) IN IF ~e.ok THEN e ELSE Good([n EXCEPT !.a = e.n])
      [] n.k = "f" -> LET e == TLCEval(SubstAll(n.a, 1, env, <<>>)) IN IF ~e.ok THEN e ELSE Good([n EXCEPT !.a = e.n, !.n = Name(n.n)])
      [] OTHER -> Good(n)

\* An expression text: its value is that of the last statement, with the variables
\* (name -> last expression assigned) substituted.
RECURSIVE ExprFrom(_, _, _, _)
ExprFrom(ss, i, env, lets) ==
    LET s == ss[i]
    IN IF s.e.k = "ib" THEN Bad
       ELSE LET e == TLCEval(Subst(s.e, env))
            IN IF ~e.ok THEN e
               ELSE IF s.n \in lets \/ (s.c = 1 /\ s.n \in DOMAIN env) THEN [Bad EXCEPT !.p = e.n.p]
               ELSE IF i = Len(ss) THEN Good(e.n)
               ELSE ExprFrom(ss, i + 1, TLCEval(IF s.n = <<>> THEN env ELSE (s.n :> e.n) @@ env),
                             IF s.c = 1 THEN lets \cup {s.n} ELSE lets)
ExprProgram(x) == LET t == TLCEval(ParseText(x)) IN IF ~t.ok THEN Bad ELSE ExprFrom(t.n, 1, <<>>, {})

\* A pipeline text: the sequence of its statements.
RECURSIVE Named(_)
NamedStmts(ss) == [k |-> "no", iso |-> 0, p |-> <<0, 0>>,
                   a |-> TLCEval([i \in 1..Len(ss) |-> TLCEval(Named(ss[i].e))]),
                   v |-> TLCEval([i \in 1..Len(ss) |-> [n |-> Name(ss[i].n), c |-> ss[i].c]])]
Named(n) ==
    CASE n.k = "ref" -> [n EXCEPT !.n = Name(@)]
      [] n.k = "u" -> [n EXCEPT !.a = TLCEval(Named(@))]
      [] n.k = "b" -> [n EXCEPT !.a = TLCEval(Named(@)), !.b = TLCEval(Named(@))]
      [] n.k \in {"if", "sw", "ib"} -> [n EXCEPT !.a = TLCEval([i \in 1..Len(n.a) |-> TLCEval(Named(n.a[i]))])]
      [] n.k = "f" -> [n EXCEPT !.n = Name(@), !.a = TLCEval([i \in 1..Len(n.a) |-> TLCEval(Named(n.a[i]))])]
      [] n.k = "blk" -> NamedStmts(n.a)
      [] OTHER -> n
PipeProgram(x) == LET t == TLCEval(ParseText(x)) IN IF ~t.ok THEN Bad ELSE Good(NamedStmts(t.n))
=============================================================================

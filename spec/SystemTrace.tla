----------------------------- MODULE SystemTrace -----------------------------
(***************************************************************************)
(* Validation of recorded executions.  One line of the trace file is one   *)
(* scenario: the programs, inputs and objects it uses and the events that  *)
(* were observed.  A behaviour consumes the events of one scenario; ok     *)
(* says whether the last event was one the specification allows, and a     *)
(* rejected scenario goes no further.                                      *)
(***************************************************************************)
EXTENDS Diag, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, l, ok,
          eng,      \* engines of the scenario
          ctx,      \* contexts
          blob,     \* artifacts
          reg,      \* registries: "user" / "plain" / "gone"
          aux       \* what the caller holds: [tree (program trees), said (what each tree printed as),
                    \*  held (results), row (which arguments are in which place)]
vars == <<s, l, ok, eng, ctx, blob, reg, aux>>

Sc == Trace[s]
ev == Trace[s].events[l]
Has(r, f) == f \in DOMAIN r
Init == /\ s \in 1..Len(Trace)
        /\ l = 1 /\ ok = TRUE
        /\ eng = [i \in 1..Len(Trace[s].engines) |-> NewEngine(Trace[s].engines[i].k, Trace[s].engines[i].save = 1)]
        /\ ctx = [i \in 1..Len(Trace[s].ctxs) |-> <<>>]
        /\ blob = [i \in {} |-> BadBlob]
        /\ reg = [i \in {} |-> "user"]
        /\ aux = [tree |-> [i \in {} |-> 0], said |-> {}, held |-> [i \in {} |-> 0], row |-> [i \in 1..Len(Trace[s].ins) |-> i]]

In(x) == Sc.ins[aux.row[x.in]]
G(x) == eng[x.e + 1]
SetEng(x, g) == eng' = [eng EXCEPT ![x.e + 1] = g]
Src == IF "src" \in DOMAIN Sc THEN Sc.src ELSE <<>>
UserReg(x) == IF Has(x, "r") /\ x.r >= 0 THEN reg[x.r] = "user" ELSE TRUE

TextEngine(g) == g.k \in {"expr", "pipe"}
\* the programs of the source texts given to an engine
TextProgram(g, x) == IF g.k = "expr" THEN ExprProgram(x) ELSE PipeProgram(x)
FromText(g, x) == LET d == TLCEval(TextProgram(g, x)) IN IF d.ok THEN ElabRoot(d.n) ELSE Rej(<<EmptyScope>>, NoPos)
CompileText ==
    LET es == TLCEval([i \in 1..Len(ev.p) |-> TLCEval(FromText(G(ev), Sc.texts[ev.p[i] + 1]))])
        a == AfterCompile(G(ev), es)
    IN /\ ok' = (/\ ev.code = CompileCode(es)
                 \* the report of a rejection, where it was recorded
                 /\ (Has(ev, "mb") /\ ev.code = "parse" /\ ev.p # <<>>)
                        => DiagOk(G(ev).k, TLCEval([i \in 1..Len(ev.p) |-> Sc.texts[ev.p[i] + 1]]), ev.mb))
       \* whether a rejected text leaves the previous program is not specified
       /\ SetEng(ev, IF a.live THEN a ELSE [a EXCEPT !.src = "unknown"])
       /\ UNCHANGED <<ctx, blob, reg>>
Sources(x) == IF Has(x, "tr") THEN [i \in 1..Len(x.tr) |-> aux.tree[x.tr[i]]] ELSE [i \in 1..Len(x.p) |-> Sc.progs[x.p[i] + 1]]
CompileTrees ==
    LET ps == TLCEval(Sources(ev))
        es == TLCEval([i \in 1..Len(ps) |-> TLCEval(ElabRoot(ps[i]))])
    IN /\ ok' = (/\ ev.code = CompileCode(es)
                 /\ ev.code = "ok" => ev.types = [i \in 1..Len(es) |-> es[i].n.rt]
                 /\ (Has(ev, "mb") /\ ev.code = "parse" /\ ps # <<>>)
                        => \E i \in 1..Len(es) : ~es[i].ok /\ Reports(Src, LineStarts(Src), ev.mb, es[i].p))
       /\ SetEng(ev, AfterCompile(G(ev), es))
       /\ UNCHANGED <<ctx, blob, reg>>

Compile == IF TextEngine(G(ev)) THEN CompileText ELSE CompileTrees

Held(x) == IF x.c >= 0 THEN ctx[x.c + 1] ELSE <<>>
\* a call with a context leaves it without errors
CtxAfter(x) == IF x.c >= 0 THEN ctx' = [ctx EXCEPT ![x.c + 1] = <<>>] ELSE UNCHANGED ctx
Exec ==
    LET g == G(ev)
    IN /\ UNCHANGED <<eng, blob, reg>>
       /\ IF g.src = "unknown"
          THEN /\ ok' = (ev.inok = 1 /\ (ev.c >= 0 => ev.cleft \in {0, Len(Held(ev))}))
               /\ IF ev.c >= 0 /\ ev.cleft = 0 THEN CtxAfter(ev) ELSE UNCHANGED ctx
          ELSE IF g.k = "pipe"
          THEN /\ ok' = (/\ PipeAgrees(ev, IF g.live THEN TLCEval([i \in 1..Len(g.fn) |-> Execute(g.fn[i], In(ev), <<>>)]) ELSE <<>>,
                                       IF g.live THEN Held(ev) ELSE <<>>)
                         /\ g.live => ev.cleft = 0)
               /\ IF g.live THEN CtxAfter(ev) ELSE UNCHANGED ctx
          ELSE IF ~g.live \/ ev.at + 1 > Len(g.fn)
          THEN /\ ok' = (ev.code = "runtime" /\ ev.inok = 1)
               /\ IF ev.c >= 0 /\ ev.cleft = 0 THEN CtxAfter(ev) ELSE UNCHANGED ctx
          ELSE /\ ok' = (ExecAgrees(ev, Execute(g.fn[ev.at + 1], In(ev), Held(ev)), g.fn[ev.at + 1].rt) /\ ev.cleft = 0)
               /\ CtxAfter(ev)
ExecuteAll ==
    LET g == G(ev)
    IN /\ UNCHANGED <<eng, blob, reg>>
       /\ ok' = ExecAllAgrees(ev, ExecAll(g.fn, In(ev), Held(ev)), g.fn)
       /\ IF g.fn = <<>> THEN UNCHANGED ctx ELSE CtxAfter(ev)
Count == /\ ok' = (ev.n = Len(G(ev).fn) /\ ev.types = [i \in 1..Len(G(ev).fn) |-> G(ev).fn[i].rt])
         /\ UNCHANGED <<eng, ctx, blob, reg>>

Save == LET c == SaveCode(G(ev), ev.null = 1)
        IN /\ ok' = (ev.code = c /\ (c = "ok" => ev.magic = <<74, 70, 67, 65>>))
           /\ blob' = IF c = "ok" THEN (ev.b :> SavedBlob(G(ev))) @@ blob ELSE blob
           /\ UNCHANGED <<eng, ctx, reg>>
\* any change to the bytes makes the artifact bad
Blob == /\ ok' = TRUE
        /\ blob' = (ev.b :> IF ev.same = 1 THEN blob[ev.from] ELSE BadBlob) @@ blob
        /\ UNCHANGED <<eng, ctx, reg>>
Load == LET b == IF ev.b \in DOMAIN blob THEN blob[ev.b] ELSE BadBlob
        IN /\ ok' = IF Loadable(G(ev), b, UserReg(ev)) THEN ev.code = "ok" ELSE ev.code # "ok"
           /\ SetEng(ev, AfterLoad(G(ev), b, UserReg(ev)))
           /\ UNCHANGED <<ctx, blob, reg>>

CtxErr == ok' = TRUE /\ ctx' = [ctx EXCEPT ![ev.c + 1] = Append(@, ev.m)] /\ UNCHANGED <<eng, blob, reg>>
CtxClear == ok' = TRUE /\ ctx' = [ctx EXCEPT ![ev.c + 1] = <<>>] /\ UNCHANGED <<eng, blob, reg>>
NewReg == ok' = TRUE /\ reg' = (ev.r :> IF ev.user = 1 THEN "user" ELSE "plain") @@ reg /\ UNCHANGED <<eng, ctx, blob>>
DelReg == ok' = TRUE /\ reg' = (ev.r :> "gone") @@ reg /\ UNCHANGED <<eng, ctx, blob>>
RenewEngine == ok' = TRUE /\ SetEng(ev, NewEngine(G(ev).k, G(ev).save)) /\ UNCHANGED <<ctx, blob, reg>>

(* Every execution by every thread is as if it were alone, and none waits  *)
(* for another one.  Of equal repetitions only the first is recorded.      *)
\* strict: the scheduling points are exactly those of the prescribed order
AloneAgrees(x) ==
    LET g == eng[x.e + 1]
        in == In(x)
    IN x.cleft = 0 /\ IF ~g.live THEN x.inok = 1 /\ x.code = (IF g.k = "pipe" \/ (g.k = "batch" /\ Has(x, "all")) THEN x.code ELSE "runtime")
                      ELSE IF g.k = "pipe" THEN PipeAgrees(x, [i \in 1..Len(g.fn) |-> Execute(g.fn[i], in, <<>>)], <<>>)
                      ELSE IF Has(x, "all") /\ x.all = 1 THEN ExecAllAgrees(x, ExecAll(g.fn, in, <<>>), g.fn)
                      ELSE ExecAgrees(x, Execute(g.fn[x.at + 1], in, <<>>), g.fn[x.at + 1].rt)
Threads ==
    /\ ok' = (/\ ev.broken = 0 /\ (ev.strict = 1 => ev.off = 0)
              /\ \A t \in 1..Len(ev.t) :
                   /\ Len(ev.res[t]) = Len(ev.t[t].runs)
                   /\ \A i \in 1..Len(ev.res[t]) : AloneAgrees(ev.res[t][i]))
    /\ UNCHANGED <<eng, ctx, blob, reg>>

(* What the caller does with program trees, results and arguments of its   *)
(* own.  A clone is an equal tree; after that nothing done to one of them  *)
(* shows in the other.                                                     *)
Kid(n, i) == IF n.k = "u" THEN n.a ELSE IF n.k = "b" THEN (IF i = 0 THEN n.a ELSE n.b) ELSE n.a[i + 1]
RECURSIVE SubTree(_, _)
SubTree(n, at) == IF at = <<>> THEN n ELSE SubTree(Kid(n, at[1]), Tail(at))
\* n with the subtree at the path replaced by m
RECURSIVE WithSub(_, _, _)
WithSub(n, at, m) ==
    IF at = <<>> THEN m
    ELSE LET x == TLCEval(WithSub(Kid(n, at[1]), Tail(at), m))
         IN IF n.k = "u" THEN [n EXCEPT !.a = x]
            ELSE IF n.k = "b" THEN (IF at[1] = 0 THEN [n EXCEPT !.a = x] ELSE [n EXCEPT !.b = x])
            ELSE [n EXCEPT !.a[at[1] + 1] = x]
Grown(n, x) ==
    LET e == Sc.progs[x.p + 1]
    IN IF n.k = "no" THEN [n EXCEPT !.a = Append(@, e), !.v = Append(@, [n |-> IF Has(x, "n") THEN x.n ELSE "", c |-> IF Has(x, "c") THEN x.c ELSE 0])]
       ELSE [n EXCEPT !.a = Append(@, e)]
Located(n, p) == [f \in DOMAIN n \cup {"p"} |-> IF f = "p" THEN p ELSE n[f]]
\* a tree without positions, as nested tuples: all of it, or only the operators, names and
\* variables, which trees that print the same agree in
RECURSIVE Shape(_, _)
Shape(n, full) ==
    LET all(a) == TLCEval([i \in 1..Len(a) |-> TLCEval(Shape(a[i], full))])
    IN CASE n.k \in {"c", "cl"} -> IF full THEN <<n.k, n.t, n.v>> ELSE <<"c">>
         [] n.k = "u" -> <<"u", n.op, TLCEval(Shape(n.a, full))>>
         [] n.k = "b" -> <<"b", n.op, TLCEval(Shape(n.a, full)), TLCEval(Shape(n.b, full))>>
         [] n.k = "f" -> <<"f", n.n, all(n.a)>>
         [] n.k = "ref" -> <<"ref", n.n>>
         [] n.k = "no" -> <<"no", IF full THEN n.iso ELSE 0,
                            TLCEval([i \in 1..Len(n.v) |-> IF n.v[i].n = "" THEN <<"">> ELSE <<n.v[i].n, n.v[i].c>>]), all(n.a)>>
         [] n.k \in {"if", "sw", "ib"} -> <<n.k, all(n.a)>>
         [] OTHER -> <<n.k>>
\* equal trees print the same, and what prints the same has the same shape
SaidOk(b, h, said) == \A x \in said : x.pre = ev.pre => (x.b = b => x.s = ev.s) /\ (x.s = ev.s => x.h = h)
AuxOps == {"tree", "clone", "append", "drop", "setloc", "print", "reread", "newin", "newctx", "report"}
Put(f, k, v) == (k :> v) @@ f
At(x) == SubTree(aux.tree[x.tr], x.at)
Aux ==
    CASE ev.ev = "tree" -> ok' = TRUE /\ aux' = [aux EXCEPT !.tree = Put(@, ev.tr, Sc.progs[ev.p + 1])]
      [] ev.ev = "clone" -> ok' = TRUE /\ aux' = [aux EXCEPT !.tree = Put(@, ev.to, At(ev))]
      [] ev.ev = "append" -> ok' = TRUE /\ aux' = [aux EXCEPT !.tree = Put(@, ev.tr, TLCEval(WithSub(@[ev.tr], ev.at, Grown(At(ev), ev))))]
      [] ev.ev = "drop" -> ok' = TRUE /\ aux' = [aux EXCEPT !.tree = [i \in DOMAIN @ \ {ev.tr} |-> @[i]]]
      [] ev.ev = "setloc" -> ok' = TRUE /\ aux' = [aux EXCEPT !.tree = Put(@, ev.tr, TLCEval(WithSub(@[ev.tr], ev.at, Located(At(ev), ev.p))))]
      [] ev.ev = "print" -> LET b == ToString(Shape(At(ev), TRUE))
                                h == ToString(Shape(At(ev), FALSE))
                            IN /\ ok' = SaidOk(b, h, aux.said)
                               /\ aux' = [aux EXCEPT !.said = @ \cup {[b |-> b, pre |-> ev.pre, h |-> h, s |-> ev.s]}]
      \* a result is the caller's: it never changes
      [] ev.ev = "reread" -> ok' = (aux.held[ev.keep] = <<>> \/ aux.held[ev.keep] = <<ev.t, ev.v>>) /\ UNCHANGED aux
      [] ev.ev = "newin" -> ok' = TRUE /\ aux' = [aux EXCEPT !.row[ev.in] = ev.as]
      [] ev.ev = "newctx" -> ok' = TRUE /\ UNCHANGED aux
      [] ev.ev = "report" -> ok' = (ev.mb = Rendered(Src, LineStarts(Src), ev)) /\ UNCHANGED aux

Core == CASE ev.ev = "compile" -> Compile
          [] ev.ev = "exec" -> Exec
          [] ev.ev = "execall" -> ExecuteAll
          [] ev.ev = "count" -> Count
          [] ev.ev = "save" -> Save
          [] ev.ev = "blob" -> Blob
          [] ev.ev = "load" -> Load
          [] ev.ev = "ctxerr" -> CtxErr
          [] ev.ev = "ctxclear" -> CtxClear
          [] ev.ev = "newreg" -> NewReg
          [] ev.ev = "delreg" -> DelReg
          [] ev.ev = "newengine" -> RenewEngine
          [] ev.ev = "threads" -> Threads
          [] OTHER -> ok' = FALSE /\ UNCHANGED <<eng, ctx, blob, reg>>     \* crash, throw

Next == /\ ok /\ l <= Len(Trace[s].events)
        /\ l' = l + 1 /\ UNCHANGED s
        /\ IF ev.ev \in AuxOps
           THEN /\ Aux
                /\ ctx' = IF ev.ev = "newctx" THEN [ctx EXCEPT ![ev.c + 1] = <<>>] ELSE ctx
                /\ UNCHANGED <<eng, blob, reg>>
           ELSE /\ Core
                /\ aux' = IF ev.ev = "exec" /\ Has(ev, "keep")
                          THEN [aux EXCEPT !.held = Put(@, ev.keep, IF ev.code = "ok" THEN <<ev.t, ev.v>> ELSE <<>>)] ELSE aux
        /\ ok' \/ PrintT(<<"REJECT", s, l>>)
Spec == Init /\ [][Next]_vars
Accepted == ok
=============================================================================

------------------------------ MODULE ThreadsMC -------------------------------
(***************************************************************************)
(* Concurrent executions of shared engines, statement by statement.        *)
(*                                                                         *)
(* Every thread performs a list of executions, in its own context (reused  *)
(* from one execution to the next) or in none.  An execution is cut at its *)
(* scheduling points, calls of sync; a step of the model runs one thread   *)
(* up to its next scheduling point, and all interleavings of such steps    *)
(* are explored.  A context is what an execution writes besides its        *)
(* output: its errors, and the arena that a new execution or the end of    *)
(* one resets (its generation).                                            *)
(*                                                                         *)
(* Independent: every execution ends as it would have ended alone.  With   *)
(* Shared = TRUE, executions without a context of their own share one: the *)
(* design the property excludes, which the model must reject.              *)
(***************************************************************************)
EXTENDS Engine, Json
CONSTANTS Setup, Shared, Emit

K(k, n, a) == [k |-> k, n |-> n, a |-> a]
CI(t, k) == [k |-> "c", t |-> t, v |-> WOfInt(k, Size(t))]
Ea == [k |-> "ea"]
Out == [k |-> "out"]
Arg(t, i) == K("f", "arg_" \o t, <<Ea, CI("i32", i)>>)
Ref(n) == [k |-> "ref", n |-> n]
Add(a, b) == [k |-> "b", op |-> "+", a |-> a, b |-> b]
Sync(e) == K("f", "sync", <<Ea, e>>)
St(t, g, e) == K("f", "st_" \o t, <<Out, CI("u32", g), e>>)
Rep(e, n) == K("f", "rep_i64", <<e, CI("i32", n)>>)
Stm(n, e) == [n |-> n, e |-> e]
Stmts(ss) == [k |-> "no", iso |-> 0, a |-> [i \in 1..Len(ss) |-> ss[i].e], v |-> [i \in 1..Len(ss) |-> [n |-> ss[i].n, c |-> 0]]]

Progs == <<
    Stmts(<<Stm("u", Add(Arg("string", 2), Arg("string", 2))),
          Stm("y", Sync(Arg("i64", 0))),
          Stm("w", Add(Ref("u"), Ref("u"))),
          Stm("", St("string", 1, Ref("w"))),
          Stm("z", Sync(Arg("i64", 1))),
          Stm("", St("string", 2, Ref("u"))),
          Stm("", St("i64list", 3, Rep(Add(Ref("y"), Ref("z")), 5)))>>),
    Stmts(<<Stm("l", Rep(Arg("i64", 0), 40)),
          Stm("z", Sync(Arg("i64", 1))),
          Stm("", St("i64list", 4, Ref("l"))),
          Stm("", St("i64", 5, Ref("z")))>>),
    Add(Rep(Arg("i64", 0), 3), Rep(Sync(Arg("i64", 1)), 2)) >>
\* the arguments of thread t; every second execution reports errors
S(bs) == [t |-> "string", v |-> bs]
I(k) == [t |-> "i64", v |-> WOfInt(k, 8)]
Ins == << <<I(5), I(0 - 11), S(<<97>>)>>, <<I(0 - 6), I(0 - 12), S(<<98, 98>>)>>, <<I(7), I(13), S(<<99, 99, 99>>)>>, <<I(0 - 8), I(14), S(<<>>)>> >>

\* execution of entry at of engine e (0-based; engine 2 is a batch of all programs)
R(e, at, p, in, api) == [e |-> e, at |-> at, p |-> p, in |-> in, api |-> api]
RunP(in) == R(0, 0, 1, in, "void")
RunQ(in) == R(1, 0, 2, in, "void")
BatchP(in) == R(2, 0, 1, in, "void")
BatchQ(in) == R(2, 1, 2, in, "void")
BatchX(in) == R(2, 2, 3, in, "ret")
T(ctx, runs) == [ctx |-> ctx, runs |-> runs]
Threads ==
    CASE Setup = "NN" -> <<T(0, <<RunP(1), RunQ(2)>>), T(0, <<RunP(3), RunQ(4)>>)>>
      [] Setup = "CC" -> <<T(1, <<RunP(1), RunQ(3)>>), T(1, <<RunP(2), RunQ(4)>>)>>
      [] Setup = "NCN" -> <<T(0, <<RunP(1)>>), T(1, <<RunP(2)>>), T(0, <<RunP(3)>>)>>
      [] Setup = "BBBB" -> <<T(0, <<BatchQ(1)>>), T(1, <<BatchQ(2)>>), T(0, <<BatchX(3)>>), T(1, <<BatchX(4)>>)>>
      [] Setup = "BM" -> <<T(0, <<BatchP(4), BatchX(1)>>), T(0, <<BatchX(2), BatchQ(3)>>)>>
N == Len(Threads)
Elabs == TLCEval([i \in 1..Len(Progs) |-> ElabRoot(Progs[i]).n])
\* each execution by itself
Alone == TLCEval([t \in 1..N |-> [i \in 1..Len(Threads[t].runs) |->
            LET r == Threads[t].runs[i] IN Execute(Elabs[r.p], Ins[r.in], <<>>)]])

VARIABLES thr,      \* per thread: [run, pc (next statement, 0 = not started), st, gen]
          cx,       \* per context: [errs, gen]
          done,     \* per thread: the outcomes so far
          hist
vars == <<thr, cx, done, hist>>
CtxOf(t) == IF Threads[t].ctx = 0 /\ Shared THEN 0 ELSE t
Idle(i) == [run |-> i, pc |-> 0, st |-> 0, gen |-> 0]
Init == /\ thr = [t \in 1..N |-> Idle(1)]
        /\ cx = [c \in 0..N |-> [errs |-> <<>>, gen |-> 0]]
        /\ done = [t \in 1..N |-> <<>>] /\ hist = <<>>
        /\ Emit => PrintT(<<"PROGS", ToJson([progs |-> Progs, ins |-> Ins, threads |-> Threads])>>)

IsSync(n) == n.k = "f" /\ n.n = "sync"
\* the first statement after i that starts a new segment
RECURSIVE NextCut(_, _)
NextCut(p, i) == IF i > Len(p.a) THEN i ELSE IF IsSync(p.a[i]) THEN i ELSE NextCut(p, i + 1)
Part(p, i, j) == [p EXCEPT !.a = SubSeq(@, i, j - 1), !.v = SubSeq(@, i, j - 1)]
Fresh(in) == [sc |-> <<EmptyScope>>, log |-> <<>>, err |-> <<>>, fail |-> FALSE, in |-> in]

Step(t) ==
    LET h == thr[t]
        r == Threads[t].runs[h.run]
        p == Elabs[r.p]
        c == CtxOf(t)
        starts == h.pc = 0
        \* an execution without a context gets a new one
        k0 == IF starts /\ Threads[t].ctx = 0 THEN [errs |-> <<>>, gen |-> cx[c].gen + 1] ELSE cx[c]
        g == IF starts THEN k0.gen ELSE h.gen
        st0 == IF starts THEN Fresh(Ins[r.in]) ELSE h.st
        whole == p.k # "no"                     \* an expression: nothing is visible before its end
        i == IF starts THEN 1 ELSE h.pc
        j == IF whole THEN (IF starts THEN 1 ELSE 2)
             ELSE NextCut(p, IF starts THEN 1 ELSE i + 1)
        ends == IF whole THEN ~starts ELSE j > Len(p.a)
        ev == IF whole THEN (IF starts THEN Res(NoVal, st0) ELSE Ev(p, st0)) ELSE Res(NoVal, EvStmts(Part(p, i, j), 1, st0))
        k1 == [k0 EXCEPT !.errs = @ \o ev.st.err]
        st1 == [ev.st EXCEPT !.err = <<>>]
        res == [errs |-> k1.errs, log |-> st1.log, v |-> ev.v, torn |-> g # k1.gen]
    IN /\ h.run <= Len(Threads[t].runs)
       /\ hist' = Append(hist, t)
       /\ IF ends
          THEN /\ thr' = [thr EXCEPT ![t] = Idle(h.run + 1)]
               /\ done' = [done EXCEPT ![t] = Append(@, res)]
               /\ cx' = [cx EXCEPT ![c] = [errs |-> <<>>, gen |-> k1.gen + 1]]
          ELSE /\ thr' = [thr EXCEPT ![t] = [run |-> h.run, pc |-> j, st |-> st1, gen |-> g]]
               /\ cx' = [cx EXCEPT ![c] = k1]
               /\ UNCHANGED done
AllDone == \A t \in 1..N : thr[t].run > Len(Threads[t].runs)
Finish == AllDone /\ UNCHANGED vars
Next == (\E t \in 1..N : Step(t)) \/ Finish
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in 1..N : WF_vars(Step(t))

\* every execution that ended did so as it would have alone
Independent == \A t \in 1..N : \A i \in 1..Len(done[t]) :
    LET d == done[t][i]  a == Alone[t][i]
    IN ~d.torn /\ d.errs = a.errs /\ SameLog(d.log, a.log) /\ (Threads[t].runs[i].api = "ret" => d.v = a.v)
\* no context is left with errors
Clean == AllDone => \A c \in 0..N : cx[c].errs = <<>>
Report == (AllDone /\ Emit) => PrintT(<<"SCHED", ToJson(hist)>>)
Terminates == <>AllDone
=============================================================================

------------------------------- MODULE Engine --------------------------------
(***************************************************************************)
(* Engines, execution contexts and saved artifacts as state machines.      *)
(*                                                                         *)
(* An engine (single, batch, expr or pipe) is                              *)
(*   [k, save, live, src, fn]                                              *)
(*   live  a program is compiled or loaded                                 *)
(*   src   "compile" or "load": where the program came from                *)
(*   fn    the elaborated entries, in order                                *)
(* A context is the sequence of error messages it holds.  An artifact is   *)
(*   [good, mode, fn]: good = byte-identical to what SaveCompiled wrote.   *)
(*                                                                         *)
(* Each operation is a pure function from the state to its outcome, so the *)
(* same operators drive exhaustive model checking (EngineMC) and the       *)
(* validation of recorded executions (SystemTrace).                        *)
(***************************************************************************)
EXTENDS Lang, FiniteSets

NewEngine(k, save) == [k |-> k, save |-> save, live |-> FALSE, src |-> "none", fn |-> <<>>]
Mode(g) == IF g.k \in {"single", "expr"} THEN "single" ELSE "batch"
Dead(g) == [g EXCEPT !.live = FALSE, !.src = "none", !.fn = <<>>]

\* es: the elaborated programs.  An entry cannot return a pointer.
CompileCode(es) ==
    IF es = <<>> \/ (\E i \in 1..Len(es) : ~es[i].ok) THEN "parse"
    ELSE IF \E i \in 1..Len(es) : es[i].n.rt = "ptr" THEN "runtime"
    ELSE "ok"
AfterCompile(g, es) ==
    IF es = <<>> THEN g
    ELSE IF CompileCode(es) = "ok"
    THEN [g EXCEPT !.live = TRUE, !.src = "compile", !.fn = TLCEval([i \in 1..Len(es) |-> es[i].n])]
    ELSE Dead(g)

-----------------------------------------------------------------------------
(* Execution of one entry in a context already holding the errors held.    *)
(* out: is there an output to store to (only the void* calls pass one)     *)
Execute(p, in, held) ==
    LET r == TLCEval(Run(p, in))
        errs == held \o r.st.err
        bad == r.st.fail \/ errs # <<>>
    IN [code |-> IF bad THEN "runtime" ELSE "ok", errs |-> errs, fail |-> r.st.fail,
        v |-> r.v, log |-> r.st.log]

SameLog(a, b) ==
    Len(a) = Len(b) /\ \A i \in 1..Len(a) :
        a[i].tag = b[i].tag /\ SameVal([t |-> a[i].t, v |-> a[i].v], [t |-> b[i].t, v |-> b[i].v])

\* the message "*" stands for any text
ErrsAgree(xs, es) ==
    Len(xs) = Len(es) /\ \A i \in 1..Len(es) : IF es[i] = "*" THEN xs[i] # "" ELSE xs[i] = es[i]
\* does the observation x agree with the outcome r?
ExecAgrees(x, r, rt) ==
    /\ x.inok = 1                                   \* the arguments are never modified
    /\ x.code = r.code
    /\ (r.code = "runtime" /\ ~r.fail) => ErrsAgree(x.errs, r.errs)
    /\ (r.code = "runtime" /\ r.fail) => x.errs # <<>>
    /\ (~r.fail /\ x.api = "void") => SameLog(x.log, r.log)
    /\ (r.code = "ok" /\ x.api = "ret" /\ rt # "void") => SameVal([t |-> x.t, v |-> x.v], r.v)

\* all entries in order; entry i starts with the errors held only if i = 1
RECURSIVE ExecAllFrom(_, _, _, _, _)
ExecAllFrom(fn, i, in, held, acc) ==
    IF i > Len(fn) THEN acc
    ELSE ExecAllFrom(fn, i + 1, in, <<>>, TLCEval(Append(acc, Execute(fn[i], in, held))))
ExecAll(fn, in, held) == ExecAllFrom(fn, 1, in, held, <<>>)
RECURSIVE Logs(_, _)
Logs(rs, i) == IF i > Len(rs) THEN <<>> ELSE rs[i].log \o Logs(rs, i + 1)
ExecAllAgrees(x, rs, fn) ==
    LET bad == SelectSeq(rs, LAMBDA r : r.code # "ok")
        anyFail == \E i \in 1..Len(rs) : rs[i].fail
    IN /\ x.inok = 1
       /\ x.code = IF bad = <<>> THEN "ok" ELSE "runtime"
       /\ Len(x.errs) = Len(bad)
       /\ \A i \in 1..Len(bad) : IF bad[i].fail THEN x.errs[i] # <<>> ELSE ErrsAgree(x.errs[i], bad[i].errs)
       /\ (x.api = "void" /\ ~anyFail) => SameLog(x.log, Logs(rs, 1))
       /\ x.api = "ret" =>
            /\ Len(x.vals) = Len(rs)
            /\ \A i \in 1..Len(rs) :
                 (rs[i].code = "ok" /\ fn[i].rt # "void") => SameVal(x.vals[i], rs[i].v)

-----------------------------------------------------------------------------
(* A pipeline: every source is one program, run once per execution in its  *)
(* own scope.  The sources are independent: their effects may interleave   *)
(* in any way that keeps the order within each of them.                    *)
Tags(log) == {log[i].tag : i \in 1..Len(log)}
Only(log, ts) == SelectSeq(log, LAMBDA x : x.tag \in ts)
Range(q) == {q[i] : i \in 1..Len(q)}
Times(m, q) == Cardinality({i \in 1..Len(q) : q[i] = m})
RECURSIVE Flat(_, _)
Flat(qs, i) == IF i > Len(qs) THEN <<>> ELSE qs[i] \o Flat(qs, i + 1)
\* q is an interleaving of the sequences qs
Shuffled(q, qs) ==
    LET all == Flat(qs, 1)
    IN /\ Len(q) = Len(all)
       /\ \A m \in Range(all) : Times(m, q) = Times(m, all)
       /\ \A i \in 1..Len(qs) :
            LET mine == {m \in Range(qs[i]) : \A j \in 1..Len(qs) : j = i \/ m \notin Range(qs[j])}
            IN SelectSeq(q, LAMBDA m : m \in mine) = SelectSeq(qs[i], LAMBDA m : m \in mine)
\* rs: the outcome of each source run on its own; held: the errors the context held
PipeAgrees(x, rs, held) ==
    LET logs == [i \in 1..Len(rs) |-> rs[i].log]
        anyFail == \E i \in 1..Len(rs) : rs[i].fail
        bad == held # <<>> \/ \E i \in 1..Len(rs) : rs[i].code # "ok"
        errs == TLCEval(Flat(x.errs, 1))
    IN /\ x.inok = 1
       /\ x.code = IF bad THEN "runtime" ELSE "ok"
       /\ x.api = "void"
       /\ (bad /\ anyFail) => errs # <<>>
       /\ ~anyFail =>
            /\ \A i \in 1..Len(x.errs) : x.errs[i] # <<>>
            /\ Shuffled(errs, <<held>> \o [i \in 1..Len(rs) |-> rs[i].errs])
            /\ Len(x.log) = Len(Logs(rs, 1))
            /\ \A i \in 1..Len(rs) : SameLog(Only(x.log, Tags(logs[i])), logs[i])

-----------------------------------------------------------------------------
(* Artifacts *)
SaveCode(g, null) ==
    IF null THEN "invalid" ELSE IF g.live /\ g.save /\ g.src = "compile" THEN "ok" ELSE "runtime"
SavedBlob(g) == [good |-> TRUE, mode |-> Mode(g), fn |-> g.fn]
BadBlob == [good |-> FALSE, mode |-> "none", fn |-> <<>>]

\* the functions a program calls
RECURSIVE Calls(_)
Calls(n) ==
    CASE n.k = "f" -> {n.n} \cup UNION {Calls(n.a[i]) : i \in 1..Len(n.a)}
      [] n.k = "u" -> Calls(n.a)
      [] n.k = "b" -> Calls(n.a) \cup Calls(n.b)
      [] n.k \in {"if", "sw", "ib", "no"} -> UNION {Calls(n.a[i]) : i \in 1..Len(n.a)}
      [] OTHER -> {}
\* user: does the registry given to LoadCompiled have the user functions?
\* (the generated programs always keep a call of a user function when they name one)
Loadable(g, b, user) ==
    /\ b.good /\ b.mode = Mode(g)
    /\ user \/ \A i \in 1..Len(b.fn) : Calls(b.fn[i]) \cap UserNames = {}
AfterLoad(g, b, user) ==
    IF Loadable(g, b, user) THEN [g EXCEPT !.live = TRUE, !.src = "load", !.fn = b.fn] ELSE g
=============================================================================

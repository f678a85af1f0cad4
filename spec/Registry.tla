------------------------------ MODULE Registry -------------------------------
(***************************************************************************)
(* The function registry: a map from (name, parameter types) to            *)
(* [ret, kind, impl, ctx].  A registration with an execution context       *)
(* provides two entries, one hiding the context and one with a trailing    *)
(* ptr parameter; it succeeds or fails as a whole.                         *)
(*                                                                         *)
(* Registered implementations are families of numbered functions:          *)
(*   a b d  i32->i32, i32->i64, i64->i32: x * 10 + k      q  10 * len + k  *)
(*   e  x * 100 + y * 10 + k        m  x * y + x + y + k                   *)
(*   ax like a, mx like m, with a context: error X<k> if x = 7 / x = y     *)
(*   s  stores (k, x)     z, zx  k    n  like a, generated as code         *)
(***************************************************************************)
EXTENDS Word

Key(name, params) == <<name, params>>
Entry(ret, c, impl, ctx) == [ret |-> ret, c |-> c, impl |-> impl, ctx |-> ctx]
EmptyReg == [x \in {} |-> 0]
CtxKinds == {"roctx", "commctx"}

\* the entries a registration provides, in order
Provides(x) ==
    IF x.kind \in CtxKinds
    THEN <<[k |-> Key(x.name, x.params), e |-> Entry(x.ret, 1, x.impl, 1)],
           [k |-> Key(x.name, Append(x.params, "ptr")), e |-> Entry(x.ret, 1, x.impl, 0)]>>
    ELSE <<[k |-> Key(x.name, x.params), e |-> Entry(x.ret, IF x.kind = "intr" THEN 0 ELSE 1, x.impl, 0)]>>
Clash(reg, ps) == \E i \in 1..Len(ps) : ps[i].k \in DOMAIN reg
Register(reg, x) ==
    LET ps == Provides(x)
    IN IF x.impl = "null" \/ (x.ov = 0 /\ Clash(reg, ps))
       THEN [code |-> "invalid", reg |-> reg]
       ELSE [code |-> "ok", reg |-> [k \in {ps[i].k : i \in 1..Len(ps)} |->
                                       (CHOOSE i \in 1..Len(ps) : ps[i].k = k)] ]
AfterRegister(reg, x) ==
    LET ps == Provides(x)
        r == Register(reg, x)
    IN IF r.code # "ok" THEN reg ELSE [k \in DOMAIN r.reg |-> ps[r.reg[k]].e] @@ reg

-----------------------------------------------------------------------------
(* Programs: call trees over constants.  Resolution replaces names by      *)
(* registry entries, so a compiled program no longer depends on the        *)
(* registry.                                                               *)
Bad == [ok |-> FALSE, rt |-> "none", n |-> [k |-> "bad"]]
RECURSIVE Resolve(_, _)
Resolve(n, reg) ==
    CASE n.k = "c" -> [ok |-> TRUE, rt |-> n.t, n |-> n]
      [] n.k \in {"ec", "out"} -> [ok |-> TRUE, rt |-> "ptr", n |-> n]
      [] n.k = "f" ->
            LET as == TLCEval([i \in 1..Len(n.a) |-> Resolve(n.a[i], reg)])
                key == Key(n.n, [i \in 1..Len(as) |-> as[i].rt])
            IN IF \E i \in 1..Len(as) : ~as[i].ok \/ as[i].rt = "void" THEN Bad
               ELSE IF key \notin DOMAIN reg THEN Bad
               ELSE [ok |-> TRUE, rt |-> reg[key].ret,
                     n |-> [k |-> "f", key |-> key, e |-> reg[key], a |-> [i \in 1..Len(as) |-> as[i].n]]]
      [] OTHER -> Bad

Digit(impl) == CASE SubSeq(impl, Len(impl), Len(impl)) = "0" -> 0
                 [] SubSeq(impl, Len(impl), Len(impl)) = "1" -> 1
                 [] SubSeq(impl, Len(impl), Len(impl)) = "2" -> 2
                 [] OTHER -> 3
Family(impl) == SubSeq(impl, 1, Len(impl) - 1)
RECURSIVE EvalArgs(_, _, _)
RECURSIVE Eval(_)
\* [v, err, log]: integers, strings as byte sequences
EvalArgs(a, i, acc) ==
    IF i > Len(a) THEN acc
    ELSE LET r == Eval(a[i])
         IN EvalArgs(a, i + 1, [vs |-> Append(acc.vs, r.v), err |-> acc.err \cup r.err, log |-> acc.log \o r.log])
Eval(n) ==
    IF n.k = "c" THEN [v |-> IF n.t = "string" THEN n.v ELSE WToInt(n.v, TRUE), err |-> {}, log |-> <<>>]
    ELSE IF n.k # "f" THEN [v |-> 0, err |-> {}, log |-> <<>>]
    ELSE LET as == TLCEval(EvalArgs(n.a, 1, [vs |-> <<>>, err |-> {}, log |-> <<>>]))
             k == Digit(n.e.impl)
             f == Family(n.e.impl)
             x == as.vs[1]
             y == as.vs[2]
             X == "X" \o ToString(k)
         IN IF f = "id" THEN [v |-> x, err |-> as.err, log |-> as.log] ELSE
            [v |-> CASE f \in {"a", "b", "d", "n", "ax"} -> x * 10 + k
                     [] f = "e" -> x * 100 + y * 10 + k
                     [] f \in {"m", "mx"} -> x * y + x + y + k
                     [] f = "q" -> Len(x) * 10 + k
                     [] f \in {"z", "zx"} -> k
                     [] OTHER -> 0,
             err |-> as.err \cup (CASE f = "ax" -> IF x = 7 THEN {X} ELSE {}
                                    [] f = "mx" -> IF x = y THEN {X} ELSE {}
                                    [] OTHER -> {}),
             log |-> as.log \o (IF f = "s" THEN <<[tag |-> k, x |-> as.vs[2]]>> ELSE <<>>)]

\* loading resolves every C function again, by name and parameter types
RECURSIVE Reload(_, _)
Reload(n, reg) ==
    IF n.k # "f" THEN [ok |-> TRUE, n |-> n]
    ELSE LET as == TLCEval([i \in 1..Len(n.a) |-> Reload(n.a[i], reg)])
         IN IF \E i \in 1..Len(as) : ~as[i].ok THEN [ok |-> FALSE, n |-> n]
            ELSE IF n.e.c = 0 THEN [ok |-> TRUE, n |-> [n EXCEPT !.a = [i \in 1..Len(as) |-> as[i].n]]]
            ELSE IF n.key \notin DOMAIN reg THEN [ok |-> FALSE, n |-> n]
            ELSE IF reg[n.key].c = 0 THEN [ok |-> FALSE, n |-> n]
            ELSE [ok |-> TRUE, n |-> [n EXCEPT !.e = reg[n.key], !.a = [i \in 1..Len(as) |-> as[i].n]]]
=============================================================================

---------------------------- MODULE RegistryTrace ----------------------------
(***************************************************************************)
(* Validation of recorded registrations, lookups, compilations and calls.  *)
(***************************************************************************)
EXTENDS Registry, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, l, ok, reg, eng, blob
vars == <<s, l, ok, reg, eng, blob>>
Sc == Trace[s]
ev == Trace[s].events[l]
None == [ok |-> FALSE, rt |-> "none", n |-> [k |-> "bad"]]
Init == /\ s \in 1..Len(Trace) /\ l = 1 /\ ok = TRUE
        /\ reg = [r \in {} |-> EmptyReg]
        /\ eng = [i \in 1..Len(Trace[s].engines) |-> None]
        /\ blob = [b \in {} |-> None]
\* the identities present in a registry with the user functions
UserReg == (Key("id_i32", <<"i32">>) :> Entry("i32", 1, "id0", 0)) @@ (Key("id_string", <<"string">>) :> Entry("string", 1, "id0", 0))

Next ==
    /\ ok /\ l <= Len(Trace[s].events)
    /\ l' = l + 1 /\ UNCHANGED s
    /\ CASE ev.ev = "newreg" ->
              /\ ok' = TRUE /\ UNCHANGED <<eng, blob>>
              /\ reg' = (ev.r :> IF ev.user = 1 THEN UserReg ELSE EmptyReg) @@ reg
         [] ev.ev = "delreg" -> ok' = TRUE /\ UNCHANGED <<reg, eng, blob>>
         [] ev.ev = "reg" ->
              /\ ok' = (ev.code = Register(reg[ev.r], ev).code)
              /\ reg' = [reg EXCEPT ![ev.r] = AfterRegister(@, ev)]
              /\ UNCHANGED <<eng, blob>>
         [] ev.ev = "lookup" ->
              LET k == Key(ev.name, ev.params)
                  R == reg[ev.r]
              IN /\ ok' = IF k \in DOMAIN R
                          THEN ev.code = "ok" /\ ev.rt = R[k].ret /\ ev.isc = R[k].c /\ ev.nctx = R[k].ctx
                          ELSE ev.code = "runtime"
                 /\ UNCHANGED <<reg, eng, blob>>
         [] ev.ev = "compile" ->
              LET r == Resolve(Sc.progs[ev.p[1] + 1], reg[ev.r])
              IN /\ ok' = (ev.code = (IF r.ok THEN "ok" ELSE "parse") /\ (r.ok => ev.types = <<r.rt>>))
                 /\ eng' = [eng EXCEPT ![ev.e + 1] = r]
                 /\ UNCHANGED <<reg, blob>>
         [] ev.ev = "exec" ->
              LET p == eng[ev.e + 1]
                  r == IF p.ok THEN Eval(p.n) ELSE [v |-> 0, err |-> {}, log |-> <<>>]
              IN /\ UNCHANGED <<reg, eng, blob>>
                 /\ ok' = IF ~p.ok THEN ev.code = "runtime"
                          ELSE /\ ev.code = (IF r.err = {} THEN "ok" ELSE "runtime")
                               /\ {ev.errs[i] : i \in 1..Len(ev.errs)} = r.err
                               /\ (r.err = {} /\ ev.api = "ret" /\ p.rt # "void") =>
                                     ev.t = p.rt /\ ev.v = WOfInt(r.v, IF p.rt = "i64" THEN 8 ELSE 4)
                               /\ ev.api = "void" =>
                                     /\ Len(ev.log) = Len(r.log)
                                     /\ \A i \in 1..Len(ev.log) :
                                          ev.log[i].tag = r.log[i].tag /\ ev.log[i].v = WOfInt(r.log[i].x, 4)
         [] ev.ev = "save" ->
              /\ ok' = (ev.code = IF eng[ev.e + 1].ok THEN "ok" ELSE "runtime")
              /\ blob' = (ev.b :> eng[ev.e + 1]) @@ blob
              /\ UNCHANGED <<reg, eng>>
         [] ev.ev = "load" ->
              LET b == blob[ev.b]
                  r == IF b.ok THEN Reload(b.n, reg[ev.r]) ELSE [ok |-> FALSE, n |-> b.n]
              IN /\ ok' = ((ev.code = "ok") = r.ok)
                 /\ eng' = IF r.ok THEN [eng EXCEPT ![ev.e + 1] = [b EXCEPT !.n = r.n]] ELSE eng
                 /\ UNCHANGED <<reg, blob>>
         [] OTHER -> ok' = FALSE /\ UNCHANGED <<reg, eng, blob>>
    /\ ok' \/ PrintT(<<"REJECT", s, l>>)
Accepted == ok
=============================================================================

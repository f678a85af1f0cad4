------------------------------ MODULE UserFns --------------------------------
(***************************************************************************)
(* The C functions the conformance driver registers next to the built-ins: *)
(*   arg_T(ea, i32 i)      the i-th execution argument, of type T          *)
(*   tr_T(out, u32 tag, T) stores (tag, value) in the output, returns value*)
(*   st_T(out, u32 tag, T) the same, returning nothing                     *)
(*   id_T(T)               the identity, opaque to the optimizer           *)
(*   err_T(T, i32 c)       reports error E<c>, returns the value           *)
(*   cm_i64(i64, i64)      a commutative function: a*b + (a ^ b)           *)
(*   cme_i64(i64, i64)     the same with an exec context; reports error C  *)
(*                         when the operands are equal                     *)
(*   sync(ea, i64)         a scheduling point; the identity; error Y<v> if   *)
(*                         v is negative                                   *)
(*   rep_i64(i64 v, i32 n) the list of n copies of v, allocated in the     *)
(*                         context's arena                                 *)
(***************************************************************************)
EXTENDS Types

FnOk(v) == [v |-> v, log |-> <<>>, err |-> <<>>, fail |-> FALSE]
FnFail(t) == [v |-> Val(t, <<>>), log |-> <<>>, err |-> <<>>, fail |-> TRUE]

UTypes == NumTypes \cup {"string"} \cup ListTypes
Suffixed(p) == [t \in UTypes |-> p \o t]
ArgN == Suffixed("arg_")
TrN == Suffixed("tr_")
StN == Suffixed("st_")
IdN == Suffixed("id_")
ErrN == Suffixed("err_")
Range1(f) == {f[x] : x \in DOMAIN f}
UserNames == Range1(ArgN) \cup Range1(TrN) \cup Range1(StN) \cup Range1(IdN) \cup Range1(ErrN)
             \cup {"cm_i64", "cme_i64", "sync", "rep_i64"}
Inv(f, n) == CHOOSE t \in DOMAIN f : f[t] = n

UserRet(n, ts0) ==
    LET \* functions with an exec context also have the signature with a trailing ptr
        withCtx == n \in Range1(ErrN) \cup {"cme_i64", "sync", "rep_i64"}
        ts == IF withCtx /\ Len(ts0) = 3 /\ ts0[3] = "ptr" THEN SubSeq(ts0, 1, 2) ELSE ts0
    IN CASE n \in Range1(ArgN) -> IF ts = <<"ptr", "i32">> THEN Inv(ArgN, n) ELSE "none"
         [] n \in Range1(TrN) -> IF ts = <<"ptr", "u32", Inv(TrN, n)>> THEN Inv(TrN, n) ELSE "none"
         [] n \in Range1(StN) -> IF ts = <<"ptr", "u32", Inv(StN, n)>> THEN "void" ELSE "none"
         [] n \in Range1(IdN) -> IF ts = <<Inv(IdN, n)>> THEN Inv(IdN, n) ELSE "none"
         [] n \in Range1(ErrN) -> IF ts = <<Inv(ErrN, n), "i32">> THEN Inv(ErrN, n) ELSE "none"
         [] n \in {"cm_i64", "cme_i64"} -> IF ts = <<"i64", "i64">> THEN "i64" ELSE "none"
         [] n = "sync" -> IF ts = <<"ptr", "i64">> THEN "i64" ELSE "none"
         [] n = "rep_i64" -> IF ts = <<"i64", "i32">> THEN "i64list" ELSE "none"
         [] OTHER -> "none"

CmI64(a, b) == WAdd(WMul(a, b), BXor(a, b))
UserEval(n, vs, in) ==
    CASE n \in Range1(ArgN) -> FnOk(in[WToInt(vs[2].v, TRUE) + 1])
      [] n \in Range1(TrN) -> [FnOk(vs[3]) EXCEPT !.log = <<[tag |-> BToNat(vs[2].v), t |-> vs[3].t, v |-> vs[3].v]>>]
      [] n \in Range1(StN) -> [v |-> [t |-> "void", v |-> <<>>],
                               log |-> <<[tag |-> BToNat(vs[2].v), t |-> vs[3].t, v |-> vs[3].v]>>,
                               err |-> <<>>, fail |-> FALSE]
      [] n \in Range1(IdN) -> FnOk(vs[1])
      [] n \in Range1(ErrN) -> [FnOk(vs[1]) EXCEPT !.err = <<"E" \o ToString(WToInt(vs[2].v, TRUE))>>]
      [] n = "cm_i64" -> FnOk(Val("i64", CmI64(vs[1].v, vs[2].v)))
      [] n = "cme_i64" -> [FnOk(Val("i64", CmI64(vs[1].v, vs[2].v)))
                             EXCEPT !.err = IF vs[1].v = vs[2].v THEN <<"C">> ELSE <<>>]
      [] n = "sync" -> [FnOk(vs[2]) EXCEPT !.err =
                           IF WNeg(vs[2].v) THEN <<"Y" \o ToString(WToInt(vs[2].v, TRUE))>> ELSE <<>>]
      [] n = "rep_i64" -> FnOk(Val("i64list", LET k == WToInt(vs[2].v, TRUE)
                                             IN IF k <= 0 THEN <<>> ELSE [i \in 1..k |-> vs[1].v]))
=============================================================================

------------------------------ MODULE EngineMC --------------------------------
(***************************************************************************)
(* Exhaustive model of the engine life cycle for a small universe: two     *)
(* engines, one artifact slot, one execution context, five programs.       *)
(* Every operation of the public API is enabled in every state.  TLC       *)
(* checks the properties below over the whole state graph and, through     *)
(* EmitEdges, prints one operation sequence per transition of that graph   *)
(* (the shortest path to its source, then the operation); the harness      *)
(* replays these sequences on the real engines.                            *)
(***************************************************************************)
EXTENDS Engine, Json

CONSTANTS Setup,        \* "SS" | "BB" | "SB": kinds of the engines
          EmitEdges

K(k, n, a) == [k |-> k, n |-> n, a |-> a]
CI(t, k) == [k |-> "c", t |-> t, v |-> WOfInt(k, Size(t))]
Ea == [k |-> "ea"]
Arg(t, i) == K("f", "arg_" \o t, <<Ea, CI("i32", i)>>)
Seq1(n) == [k |-> "no", iso |-> 0, a |-> <<n>>, v |-> <<[n |-> "", c |-> 0]>>]
Progs == <<
    [k |-> "b", op |-> "+", a |-> Arg("i32", 0), b |-> CI("i32", 1)],
    Seq1(K("f", "st_i32", <<[k |-> "out"], CI("u32", 9), Arg("i32", 0)>>)),
    K("f", "err_i64", <<Arg("i64", 1), CI("i32", 7)>>),
    [k |-> "ref", n |-> "nosuch"],                               \* rejected by the type checker
    Ea >>                                                        \* a pointer cannot be returned
In == <<[t |-> "i32", v |-> WOfInt(41, 4)], [t |-> "i64", v |-> WOfInt(-3, 8)]>>

Kinds == CASE Setup = "SS" -> <<"single", "single">>
           [] Setup = "BB" -> <<"batch", "batch">>
           [] Setup = "SB" -> <<"single", "batch">>
\* the second engine of a pair of equals does not save
Saves == IF Setup = "SB" THEN <<TRUE, TRUE>> ELSE <<TRUE, FALSE>>
Lists(k) == IF k = "single" THEN {<<i>> : i \in 1..5}
            ELSE {<<1, 2>>, <<3, 1, 2>>, <<2>>, <<1, 4>>, <<5, 1>>, <<>>}

VARIABLES eng, ctx, blob, hist
vars == <<eng, ctx, blob>>
Elabs == [i \in 1..5 |-> ElabRoot(Progs[i])]
None == [good |-> FALSE, mode |-> "unset", fn |-> <<>>]

Init == /\ eng = [i \in 1..2 |-> NewEngine(Kinds[i], Saves[i])]
        /\ ctx = <<>> /\ blob = None /\ hist = <<>>
        /\ EmitEdges => PrintT(<<"PROGS", ToJson([progs |-> Progs, ins |-> In, kinds |-> Kinds, saves |-> Saves])>>)

\* the last conjunct of every action: records it, and prints the transition
Do(op) == /\ hist' = Append(hist, op)
          /\ EmitEdges => PrintT(<<"EDGE", IF vars' = vars THEN 0 ELSE 1, ToJson(Append(hist, op))>>)

Compile(e) == \E p \in Lists(Kinds[e]) :
    /\ eng' = [eng EXCEPT ![e] = AfterCompile(@, [i \in 1..Len(p) |-> Elabs[p[i]]])]
    /\ UNCHANGED <<ctx, blob>>
    /\ Do([op |-> "compile", e |-> e - 1, p |-> [i \in 1..Len(p) |-> p[i] - 1]])
Exec(e) == \E at \in (IF Kinds[e] = "single" THEN {0} ELSE {0, 1, 3}), api \in {"ret", "void"}, c \in {-1, 0} :
    /\ UNCHANGED <<eng, blob>>
    /\ ctx' = IF c = 0 /\ at < Len(eng[e].fn) THEN <<>> ELSE ctx
    /\ Do([op |-> "exec", e |-> e - 1, at |-> at, in |-> 1, api |-> api, c |-> c])
ExecAllOp(e) == Kinds[e] = "batch" /\ \E api \in {"ret", "void"}, c \in {-1, 0} :
    /\ UNCHANGED <<eng, blob>>
    /\ ctx' = IF c = 0 /\ eng[e].live THEN <<>> ELSE ctx
    /\ Do([op |-> "execall", e |-> e - 1, in |-> 1, api |-> api, c |-> c])
Count(e) == Kinds[e] = "batch" /\ UNCHANGED vars /\ Do([op |-> "count", e |-> e - 1])
Save(e) == \E null \in {0, 1} :
    /\ blob' = IF SaveCode(eng[e], null = 1) = "ok" THEN SavedBlob(eng[e]) ELSE blob
    /\ UNCHANGED <<eng, ctx>>
    /\ Do([op |-> "save", e |-> e - 1, b |-> 0, null |-> null])
Load(e) == blob # None /\ \E r \in {0, 1} :
    /\ eng' = [eng EXCEPT ![e] = AfterLoad(@, blob, r = 0)]
    /\ UNCHANGED <<ctx, blob>>
    /\ Do([op |-> "load", e |-> e - 1, b |-> 0, r |-> r])
Damage == /\ blob.good /\ blob' = BadBlob /\ UNCHANGED <<eng, ctx>>
          /\ Do([op |-> "blob", b |-> 0, from |-> 0, cutf |-> 700])
CtxErr == /\ ctx = <<>> /\ ctx' = <<"held">> /\ UNCHANGED <<eng, blob>>
          /\ Do([op |-> "ctxerr", c |-> 0, m |-> "held"])
Renew(e) == /\ eng' = [eng EXCEPT ![e] = NewEngine(Kinds[e], Saves[e])] /\ UNCHANGED <<ctx, blob>>
            /\ Do([op |-> "newengine", e |-> e - 1])

Next == \/ \E e \in 1..2 : Compile(e) \/ Exec(e) \/ ExecAllOp(e) \/ Count(e) \/ Save(e) \/ Load(e) \/ Renew(e)
        \/ Damage \/ CtxErr
Spec == Init /\ [][Next]_<<vars, hist>>
View == vars

(* an engine that is live has a program of its kind; a dead one has none *)
WellFormed == \A e \in 1..2 :
    /\ eng[e].live <=> eng[e].fn # <<>>
    /\ Kinds[e] = "single" => Len(eng[e].fn) <= 1
    /\ eng[e].live => \A i \in 1..Len(eng[e].fn) : eng[e].fn[i].rt # "ptr"
    /\ eng[e].live <=> eng[e].src # "none"
(* what was saved can be loaded, by engines of its kind only *)
SavedLoads == blob.good => \A e \in 1..2 : Loadable(eng[e], blob, TRUE) <=> (blob.mode = Mode(eng[e]))
(* only a program that was compiled with saving on can have been saved *)
SaveOnlyCompiled == \A e \in 1..2 : SaveCode(eng[e], FALSE) = "ok" => eng[e].save /\ eng[e].src = "compile"
(* execution gives what the program gives, whatever the history *)
Deterministic == \A e \in 1..2 : \A i \in 1..Len(eng[e].fn) :
    \E p \in 1..3 : /\ eng[e].fn[i] = Elabs[p].n
                    /\ Execute(eng[e].fn[i], In, <<>>).errs = (IF p = 3 THEN <<"E7">> ELSE <<>>)
(* a step changes at most one engine, and an artifact never changes on its own *)
Isolation == [][\E e \in 1..2 : eng'[e] = eng[e]]_<<vars>>
FailedLoadKeeps == [][\A e \in 1..2 : (eng'[e] # eng[e] /\ eng'[e].src = "load") => (blob.good /\ eng'[e].fn = blob.fn)]_<<vars>>
=============================================================================

-------------------------------- MODULE TreeMC ---------------------------------
(***************************************************************************)
(* The life of program trees for a small universe: two places for trees,   *)
(* one engine.  Trees are made, cloned (whole or in part), extended,       *)
(* compiled and destroyed in every order.  kin remembers which place was   *)
(* cloned from which and which tree the engine was compiled from, so that  *)
(* states in which something could still be shared are told apart from     *)
(* those in which nothing can.  Transitions are printed and replayed on    *)
(* the real library as for EngineMC.                                       *)
(***************************************************************************)
EXTENDS Engine, Json

CI(t, k) == [k |-> "c", t |-> t, v |-> WOfInt(k, Size(t))]
Call(n, a) == [k |-> "f", n |-> n, a |-> a]
Ref(n) == [k |-> "ref", n |-> n]
Base == [k |-> "no", iso |-> 0, a |-> <<Call("arg_i32", <<[k |-> "ea"], CI("i32", 0)>>)>>, v |-> <<[n |-> "x", c |-> 0]>>]
Items == <<[n |-> "", c |-> 0, e |-> Call("st_i32", <<[k |-> "out"], CI("u32", 9), Ref("x")>>)],
           [n |-> "y", c |-> 1, e |-> Ref("x")]>>
Progs == <<Base, Items[1].e, Items[2].e>>
In == <<[t |-> "i32", v |-> WOfInt(41, 4)]>>
\* a tree, and whether there is one at all
Nothing == [is |-> FALSE, n |-> Base]
A(n) == [is |-> TRUE, n |-> n]
Places == 1..2

VARIABLES tree, eng, kin, from, hist
vars == <<tree, eng, kin, from>>
Init == /\ tree = [i \in Places |-> Nothing] /\ eng = NewEngine("single", FALSE)
        /\ kin = 0 /\ from = 0 /\ hist = <<>>
        /\ PrintT(<<"PROGS", ToJson([progs |-> Progs, ins |-> In])>>)
Do(op) == /\ hist' = Append(hist, op)
          /\ PrintT(<<"EDGE", IF vars' = vars THEN 0 ELSE 1, ToJson(Append(hist, op))>>)

\* place i holds something else now
Fresh(i, k) == kin' = k /\ from' = IF from = i THEN 0 ELSE from
New(i) == /\ tree' = [tree EXCEPT ![i] = A(Base)] /\ UNCHANGED eng /\ Fresh(i, 0)
          /\ Do([op |-> "tree", tr |-> i, p |-> 0])
Clone(i, j, sub) ==
    /\ tree[i].is /\ (sub => tree[i].n.k = "no")
    /\ tree' = [tree EXCEPT ![j] = IF sub THEN A(tree[i].n.a[1]) ELSE tree[i]]
    /\ UNCHANGED eng /\ Fresh(j, IF i = j THEN 0 ELSE i)
    /\ Do([op |-> "clone", tr |-> i, at |-> IF sub THEN <<0>> ELSE <<>>, to |-> j])
Extend(i, k) ==
    /\ tree[i].is /\ tree[i].n.k = "no" /\ Len(tree[i].n.a) < 3
    /\ tree' = [tree EXCEPT ![i].n.a = Append(@, Items[k].e), ![i].n.v = Append(@, [n |-> Items[k].n, c |-> Items[k].c])]
    /\ UNCHANGED <<eng, kin, from>>
    /\ Do([op |-> "append", tr |-> i, at |-> <<>>, p |-> k, n |-> Items[k].n, c |-> Items[k].c])
Drop(i) == /\ tree[i].is /\ tree' = [tree EXCEPT ![i] = Nothing] /\ UNCHANGED eng /\ Fresh(i, 0)
           /\ Do([op |-> "drop", tr |-> i])
Compile(i) == /\ tree[i].is
              /\ eng' = AfterCompile(eng, <<ElabRoot(tree[i].n)>>) /\ from' = i /\ UNCHANGED <<tree, kin>>
              /\ Do([op |-> "compile", e |-> 0, tr |-> <<i>>])
Exec == /\ UNCHANGED vars /\ Do([op |-> "exec", e |-> 0, at |-> 0, in |-> 1, api |-> IF eng.live /\ eng.fn[1].rt # "void" THEN "ret" ELSE "void", c |-> -1])
Show(i) == /\ tree[i].is /\ UNCHANGED vars /\ Do([op |-> "print", tr |-> i, at |-> <<>>, pre |-> ""])
Next == \/ Exec
        \/ \E i \in Places : New(i) \/ Drop(i) \/ Compile(i) \/ Show(i)
                             \/ (\E k \in 1..2 : Extend(i, k))
                             \/ (\E j \in Places, sub \in BOOLEAN : Clone(i, j, sub))
Spec == Init /\ [][Next]_<<vars, hist>>
View == vars

(* a step on one tree leaves the other and the engine alone; what the      *)
(* engine does is what the tree meant when it was compiled                 *)
OneChanges == [][\E i \in Places : \A j \in Places \ {i} : tree'[j] = tree[j]]_<<vars>>
EngineApart == [][tree' # tree => eng' = eng]_<<vars>>
\* the engine's program is that of some tree that could be built
Count9(fn) == Execute(fn, In, <<>>).log
Sane == eng.live => (Len(Count9(eng.fn[1])) <= 2 /\ eng.fn[1].rt \in {"void", "i32"})
=============================================================================

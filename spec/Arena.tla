-------------------------------- MODULE Arena --------------------------------
(***************************************************************************)
(* The arena as its users see it: a set of live blocks (disjoint, aligned, *)
(* unchanged until the next reset), a stack of objects with destructors,   *)
(* and two counters.  An address is a pair <<high, low 24 bits>>.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

AAdd(a, n) == LET s == a[2] + n IN <<a[1] + s \div 16777216, s % 16777216>>
ALe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Apart(x, y) == ALe(AAdd(x.a, x.n), y.a) \/ ALe(AAdd(y.a, y.n), x.a)
Aligned(a, al) == a[2] % al = 0                    \* al divides 2^24

\* chunk: the smallest amount requested from the system
Fresh(chunk) == [chunk |-> chunk, live |-> {}, used |-> 0, objs |-> <<>>, total |-> 0, avail |-> 0, dead |-> FALSE]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* an observed request of n bytes aligned to al
Need(st, n, al) == n + al - 1
Granted(st, e, n, al) ==
    /\ e.null = 0
    /\ Aligned(e.addr, al)
    /\ \A b \in st.live : Apart(b, [a |-> e.addr, n |-> n])
    \* accounting: a request that certainly fits takes from what is available, one that
    \* cannot fit gets memory from the system, at least a chunk
    /\ e.avail <= e.total
    /\ e.total >= st.used + n
    /\ IF st.avail >= n + al - 1
       THEN e.total = st.total /\ e.avail >= st.avail - n - (al - 1) /\ e.avail <= st.avail - n
       ELSE IF st.avail < n
       THEN e.total >= st.total + n /\ e.total >= st.total + st.chunk
       ELSE e.total >= st.total
Refused(st, e) == e.null = 1 /\ e.total = st.total /\ e.avail = st.avail

Allowed(st, e) ==
    /\ e.intact = 1
    /\ CASE e.ev = "alloc" ->
              /\ e.dtor = <<>>
              /\ IF e.n = 0 THEN Refused(st, e) ELSE Granted(st, e, e.n, IF e.al = 0 THEN 8 ELSE e.al)
         [] e.ev = "create" -> e.dtor = <<>> /\ Granted(st, e, e.size, e.al)
         [] e.ev = "huge" -> e.dtor = <<>> /\ Refused(st, e)
         [] e.ev = "reset" ->
              /\ e.dtor = Rev(st.objs)
              /\ e.avail = e.total                \* everything is available again
              /\ e.total <= st.total
              /\ st.total = 0 => e.total = 0
         [] e.ev = "destroy" -> e.dtor = Rev(st.objs)
         [] OTHER -> FALSE

After(st, e) ==
    LET n == IF e.ev = "create" THEN e.size ELSE IF e.ev = "alloc" THEN e.n ELSE 0
    IN CASE e.ev \in {"alloc", "create"} ->
              IF e.null = 1 THEN st
              ELSE [st EXCEPT !.live = @ \cup {[a |-> e.addr, n |-> n]}, !.used = @ + n,
                              !.total = e.total, !.avail = e.avail,
                              !.objs = IF e.ev = "create" /\ e.c # "triv" THEN Append(@, e.id) ELSE @]
         [] e.ev = "reset" -> [st EXCEPT !.live = {}, !.used = 0, !.objs = <<>>, !.total = e.total, !.avail = e.avail]
         [] e.ev = "destroy" -> [st EXCEPT !.live = {}, !.objs = <<>>, !.dead = TRUE]
         [] OTHER -> st
=============================================================================

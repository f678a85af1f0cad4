------------------------------- MODULE ArenaMC -------------------------------
(***************************************************************************)
(* A bump allocator over a small memory, with the system allocator free to *)
(* place chunks anywhere (16-aligned) and to refuse.  TLC checks that all  *)
(* its behaviours are behaviours of module Arena (Conforms), and prints    *)
(* every operation sequence of the given depth for replay on the real one. *)
(***************************************************************************)
EXTENDS Arena, Json
CONSTANTS Chunk, Mem, Depth, Emit

VARIABLES st,          \* the abstract arena
          chunks,      \* sequence of [b, n]
          buf, avail,  \* position in and rest of the current chunk
          fins,        \* objects with destructors
          ok, hist
vars == <<st, chunks, buf, avail, fins, ok, hist>>

Ops == {[op |-> "alloc", n |-> n, al |-> al] : n \in {1, 8, 20}, al \in {1, 8, 32}}
       \cup {[op |-> "alloc", n |-> 0, al |-> 0], [op |-> "alloc", n |-> 40, al |-> 0], [op |-> "huge", n |-> 62]}
       \cup {[op |-> "create", c |-> c, id |-> 0] : c \in {"obj", "triv"}}
       \cup {[op |-> "reset"]}
Sz(c) == IF c = "obj" THEN 24 ELSE 16
Al(c) == IF c = "obj" THEN 4 ELSE 8

Free(b, n) == b + n <= Mem /\ \A i \in 1..Len(chunks) : b + n <= chunks[i].b \/ chunks[i].b + chunks[i].n <= b
RECURSIVE SumN(_)
SumN(s) == IF s = <<>> THEN 0 ELSE s[1].n + SumN(Tail(s))

Init == /\ st = Fresh(Chunk) /\ chunks = <<>> /\ buf = 0 /\ avail = 0 /\ fins = <<>> /\ ok = TRUE /\ hist = <<>>
Pad(p, al) == (al - (p % al)) % al
Note(o, e) == /\ ok' = Allowed(st, e) /\ st' = After(st, e) /\ hist' = Append(hist, o)

Take(o, e0, n, al) ==
    IF avail >= n + Pad(buf, al) /\ chunks # <<>>
    THEN LET p == buf + Pad(buf, al)
         IN /\ buf' = p + n /\ avail' = avail - n - Pad(buf, al) /\ UNCHANGED chunks
            /\ Note(o, e0 @@ [null |-> 0, addr |-> <<0, p>>, total |-> SumN(chunks), avail |-> avail'])
    ELSE LET size == IF n + al - 1 > Chunk THEN n + al - 1 ELSE Chunk
         IN \E b \in {x \in 0..Mem : x % 16 = 0 /\ Free(x, size)} :
              LET p == b + Pad(b, al)
              IN /\ chunks' = Append(chunks, [b |-> b, n |-> size])
                 /\ buf' = p + n /\ avail' = size - n - Pad(b, al)
                 /\ Note(o, e0 @@ [null |-> 0, addr |-> <<0, p>>, total |-> SumN(chunks'), avail |-> avail'])

Base(o) == [ev |-> o.op, intact |-> 1, dtor |-> <<>>] @@ o
Next ==
    /\ Len(hist) < Depth
    /\ \E o \in Ops :
         CASE o.op = "alloc" /\ o.n = 0 ->
                /\ UNCHANGED <<chunks, buf, avail, fins>>
                /\ Note(o, Base(o) @@ [null |-> 1, addr |-> <<0, 0>>, total |-> SumN(chunks), avail |-> avail])
           [] o.op = "alloc" /\ o.n > 0 -> Take(o, Base(o), o.n, IF o.al = 0 THEN 8 ELSE o.al) /\ UNCHANGED fins
           [] o.op = "huge" ->
                /\ UNCHANGED <<chunks, buf, avail, fins>>
                /\ Note(o, Base(o) @@ [null |-> 1, addr |-> <<0, 0>>, total |-> SumN(chunks), avail |-> avail])
           [] o.op = "create" ->
                LET o2 == [o EXCEPT !.id = Len(hist) + 1]
                IN /\ Take(o2, Base(o2) @@ [size |-> Sz(o.c), al |-> Al(o.c)], Sz(o.c), Al(o.c))
                   /\ fins' = IF o.c = "obj" THEN Append(fins, Len(hist) + 1) ELSE fins
           [] o.op = "reset" ->
                LET c1 == IF chunks = <<>> THEN <<>> ELSE <<chunks[1]>>
                    tot == SumN(c1)
                IN /\ chunks' = c1 /\ buf' = (IF c1 = <<>> THEN 0 ELSE c1[1].b) /\ avail' = tot /\ fins' = <<>>
                   /\ Note(o, [Base(o) EXCEPT !.dtor = Rev(fins)] @@ [null |-> 1, addr |-> <<0, 0>>, total |-> tot, avail |-> tot])
    /\ (Emit /\ Len(hist') = Depth) => PrintT(<<"HIST", 0, ToJson(hist')>>)
Spec == Init /\ [][Next]_vars
Conforms == ok
InChunk == chunks # <<>> => \E i \in 1..Len(chunks) : chunks[i].b <= buf /\ buf + avail = chunks[i].b + chunks[i].n
BlocksInChunks == \A b \in st.live : \E i \in 1..Len(chunks) :
                     chunks[i].b <= b.a[2] /\ b.a[2] + b.n <= chunks[i].b + chunks[i].n
=============================================================================

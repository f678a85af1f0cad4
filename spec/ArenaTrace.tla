----------------------------- MODULE ArenaTrace ------------------------------
EXTENDS Arena, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, l, ok, st
ev == Trace[s].events[l]
Init == s \in 1..Len(Trace) /\ l = 1 /\ ok = TRUE /\ st = Fresh(Trace[s].chunk)
Next == /\ ok /\ l <= Len(Trace[s].events)
        /\ l' = l + 1 /\ UNCHANGED s
        /\ IF ev.ev \in {"alloc", "create", "huge", "reset", "destroy"}
           THEN ok' = Allowed(st, ev) /\ st' = After(st, ev)
           ELSE ok' = FALSE /\ UNCHANGED st
        /\ ok' \/ PrintT(<<"REJECT", s, l>>)
Accepted == ok
=============================================================================

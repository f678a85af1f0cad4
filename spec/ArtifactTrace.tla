---------------------------- MODULE ArtifactTrace ----------------------------
(***************************************************************************)
(* Validation of loads of damaged and foreign artifacts.  Saved artifacts  *)
(* are seen as bytes and must parse; every derived artifact is computed    *)
(* here from the edits, and parsed here.                                   *)
(***************************************************************************)
EXTENDS Artifact, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES s, l, ok, eng, saved, bytes
\* saved[b]: [p (parse), fn] of what SaveCompiled wrote; bytes[b]: [v, from]
vars == <<s, l, ok, eng, saved, bytes>>
Sc == Trace[s]
ev == Trace[s].events[l]
Init == /\ s \in 1..Len(Trace) /\ l = 1 /\ ok = TRUE
        /\ eng = [i \in 1..Len(Trace[s].engines) |-> NewEngine(Trace[s].engines[i].k, Trace[s].engines[i].save = 1)]
        /\ saved = [b \in {} |-> 0] /\ bytes = [b \in {} |-> 0]
G(x) == eng[x.e + 1]
SetEng(x, g) == eng' = [eng EXCEPT ![x.e + 1] = g]

Next ==
    /\ ok /\ l <= Len(Trace[s].events)
    /\ l' = l + 1 /\ UNCHANGED s
    /\ CASE ev.ev = "compile" ->
              LET es == TLCEval([i \in 1..Len(ev.p) |-> TLCEval(ElabRoot(Sc.progs[ev.p[i] + 1]))])
              IN ok' = (ev.code = CompileCode(es)) /\ SetEng(ev, AfterCompile(G(ev), es)) /\ UNCHANGED <<saved, bytes>>
         [] ev.ev = "exec" ->
              LET g == G(ev)
              IN /\ UNCHANGED <<eng, saved, bytes>>
                 /\ ok' = IF ~g.live \/ ev.at + 1 > Len(g.fn) THEN ev.code = "runtime"
                          ELSE ExecAgrees(ev, Execute(g.fn[ev.at + 1], Sc.ins[ev.in], <<>>), g.fn[ev.at + 1].rt)
         [] ev.ev = "count" ->
              /\ ok' = (ev.n = Len(G(ev).fn) /\ ev.types = [i \in 1..Len(G(ev).fn) |-> G(ev).fn[i].rt])
              /\ UNCHANGED <<eng, saved, bytes>>
         [] ev.ev = "save" ->
              LET g == G(ev)
                  p == TLCEval(IF Len(ev.bytes) < 8 THEN NoParse ELSE Parse(ev.bytes, VersionOf(ev.bytes)))
              IN /\ ok' = (/\ ev.code = "ok" /\ p.ok /\ p.mode = Mode(g) /\ p.obj # <<>>
                           /\ p.types = [i \in 1..Len(g.fn) |-> g.fn[i].rt])
                 /\ saved' = (ev.b :> [p |-> p, fn |-> g.fn]) @@ saved
                 /\ bytes' = (ev.b :> [v |-> ev.bytes, from |-> ev.b]) @@ bytes
                 /\ UNCHANGED eng
         [] ev.ev = "blob" ->
              LET b == IF "from" \in DOMAIN ev THEN bytes[ev.from] ELSE [v |-> ev.raw, from |-> 0]
                  v == TLCEval(Edits(b.v, ev.edits, 1))
              IN /\ ok' = (Len(v) = ev.size)
                 /\ bytes' = (ev.b :> [v |-> v, from |-> b.from]) @@ bytes
                 /\ UNCHANGED <<eng, saved>>
         [] ev.ev = "load" ->
              LET g == G(ev)
                  b == bytes[ev.b]
                  o == saved[b.from]
                  d == TLCEval(Verdict(TLCEval(Parse(b.v, VersionOf(bytes[0].v))), g, saved[0].p, ev.relax, o.p))
                  new == [g EXCEPT !.live = TRUE, !.src = "load", !.fn = o.fn]
              IN /\ ok' = CASE d = "no" -> ev.code \notin {"ok", "badok"}
                            [] d = "yes" -> ev.code = "ok"
                            [] d = "open" -> ev.code # "badok"
                 /\ IF ev.code = "ok" THEN SetEng(ev, new) ELSE UNCHANGED eng
                 /\ UNCHANGED <<saved, bytes>>
         [] ev.ev = "newengine" -> ok' = TRUE /\ SetEng(ev, NewEngine(G(ev).k, G(ev).save)) /\ UNCHANGED <<saved, bytes>>
         [] OTHER -> ok' = FALSE /\ UNCHANGED <<eng, saved, bytes>>
    /\ ok' \/ PrintT(<<"REJECT", s, l>>)
Accepted == ok
=============================================================================

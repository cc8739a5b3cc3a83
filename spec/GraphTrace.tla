----------------------------- MODULE GraphTrace -----------------------------
(* Conformance: feeds the events recorded from real runs to Graph.tla.      *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES t, l, owed, hd, dirty, over
G == INSTANCE Graph
vars == <<t, l, owed, hd, dirty, over>>

X == TLCEval([k \in DOMAIN Traces |-> G!Expect(Traces[k].sc)])

Init == t \in DOMAIN Traces /\ l = 1 /\ G!GInit(X[t])

Event(e, x) ==
  CASE e.e = "read"  -> G!GRead(x)
    [] e.e = "hdr"   -> G!GHeader(x, e.s)
    [] e.e = "row"   -> G!GRow(x, e.s)
    [] e.e = "flush" -> G!GFlush(x, e.s)
    [] e.e = "end"   -> (CASE e.r = "ok"  -> G!GEndOk(x)
                           [] e.r = "err" -> G!GEndErr(x)
                           \* a crash, an exit of the process or a hang is never allowed
                           [] OTHER -> FALSE /\ UNCHANGED vars)
    [] OTHER -> FALSE /\ UNCHANGED vars

Next == /\ l <= Len(Traces[t].ev)
        /\ ~over
        /\ Event(Traces[t].ev[l], X[t])
        /\ l' = l + 1
        /\ t' = t

Spec == Init /\ [][Next]_vars

Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

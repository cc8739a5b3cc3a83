----------------------------- MODULE CsvOutTrace ------------------------------
(* Conformance of csv outputs.                                                *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES st, taken
C == INSTANCE CsvOut
VARIABLES t, l
vars == <<t, l, st, taken>>
Init == t \in DOMAIN Traces /\ l = 1 /\ C!Init
Event(e, sc) ==
  CASE e.e = "open" /\ e.r = "ok" -> C!Open
    [] e.e = "row" /\ e.r = "ok" -> C!Take(sc, e.i)
    [] e.e = "row" /\ e.r = "err" -> C!Refuse(sc, e.i)
    [] e.e = "flush" /\ e.r = "ok" -> C!Flush(sc)
    [] e.e = "file" -> C!File(sc, e.t)
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Len(Traces[k].ev) > 0 /\ Traces[k].ev[Len(Traces[k].ev)].e = "file"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

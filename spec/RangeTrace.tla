------------------------------ MODULE RangeTrace -----------------------------
(* Conformance of begin and end times.                                        *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES answered
R == INSTANCE RangeTime
VARIABLES t, l
vars == <<t, l, answered>>
Init == t \in DOMAIN Traces /\ l = 1 /\ R!Init
Event(e, sc) ==
  CASE e.e = "time" -> R!Time(sc.text, sc.zone, e.td, e.ti)
    [] e.e = "end" /\ e.r = "ok" -> answered /\ UNCHANGED answered
    [] e.e = "end" /\ e.r = "err" -> R!Refuse(sc.text, sc.zone)
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

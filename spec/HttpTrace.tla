------------------------------- MODULE HttpTrace -------------------------------
(* Conformance of remote inputs.                                              *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES st, taken, t, l
H == INSTANCE Http
X == TLCEval([k \in DOMAIN Traces |-> H!Expect(Traces[k].sc)])
ASSUME Sound == \A k \in DOMAIN Traces : H!Sound(Traces[k].sc)
vars == <<st, taken, t, l>>
Init == t \in DOMAIN Traces /\ l = 1 /\ H!Init
Event(e, x) ==
  CASE e.e = "hdr" -> H!Header(x, e.n, e.t)
    [] e.e = "row" -> H!Row(x, e.ts, e.v)
    [] e.e = "end" /\ st \in {"start", "rows"} -> IF e.r = "ok" THEN H!Finished(x) ELSE e.r = "err" /\ H!Failed(x)
    [] e.e = "asked" -> H!Asked(x, e.for, e.with)
    [] e.e = "end" /\ st = "end" -> e.r = "ok" /\ UNCHANGED <<st, taken>>
    [] OTHER -> FALSE /\ UNCHANGED <<st, taken>>
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], X[t])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

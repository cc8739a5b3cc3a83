------------------------------- MODULE CsvTrace ------------------------------
(* Conformance of csv inputs: see PipelineTrace for the scheme.               *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES st, done
C == INSTANCE CsvIn
X == TLCEval([t \in DOMAIN Traces |-> C!Expect(Traces[t].sc)])
VARIABLES t, l
vars == <<t, l, st, done>>
Init == t \in DOMAIN Traces /\ l = 1 /\ C!Init
Event(e, x) ==
  CASE e.e = "hdr" -> C!Header(x, e.n)
    [] e.e = "row" -> C!Row(x, e.td, e.ti, e.v)
    [] e.e = "end" /\ e.r = "ok" -> C!Eof(x)
    [] e.e = "end" /\ e.r = "err" -> C!Err(x)
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], X[t])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

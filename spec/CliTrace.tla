------------------------------- MODULE CliTrace -------------------------------
(* Conformance of whole runs of the command line tool.                        *)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
C == INSTANCE Cli
VARIABLES t, l
vars == <<t, l>>
Init == t \in DOMAIN Traces /\ l = 1
Event(e, sc) ==
  CASE e.e = "run" -> l = 1 /\ C!Judge(sc, C!Expect(sc), e)
    [] e.e = "end" -> l = 2 /\ e.r = "ok"
    [] OTHER -> FALSE
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

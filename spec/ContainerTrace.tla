--------------------------- MODULE ContainerTrace ----------------------------
(* Conformance of packaged inputs.                                            *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES plain
C == INSTANCE Container
VARIABLES t, l
vars == <<t, l, plain>>
Init == t \in DOMAIN Traces /\ l = 1 /\ C!Init
Event(e, sc) ==
  CASE e.e = "read" ->
         LET what == sc.reads[e.i]
             x == [r |-> e.r, n |-> e.n, d |-> e.d]
         IN IF what[1] = "plain" THEN C!Plain(what, x) ELSE C!Read(sc, what, x)
    [] e.e = "end" -> e.r = "ok" /\ UNCHANGED plain
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Len(Traces[k].ev) = Len(Traces[k].sc.reads) + 1
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

--------------------------- MODULE MultiFileTrace ---------------------------
(* Conformance of the directory reader: see PipelineTrace for the scheme.   *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES cur, pos, maps, over
M == INSTANCE MultiFile WITH Focus <- IOEnv.FOCUS
X == TLCEval([t \in DOMAIN Traces |-> M!Expect(Traces[t].sc)])
VARIABLES t, l
vars == <<t, l, cur, pos, maps, over>>
Init == t \in DOMAIN Traces /\ l = 1 /\ M!Init(Traces[t].sc, X[t])
Event(e, sc, x) ==
  CASE e.e = "open" -> M!Open(sc, x, e.name)
    [] e.e = "hdr"  -> M!Header(sc, x, [n |-> e.n, t |-> e.t])
    [] e.e = "row"  -> M!Row(sc, x, e.ts, e.v)
    [] e.e = "end" /\ e.r = "ok"  -> M!Eof(sc, x)
    [] e.e = "end" /\ e.r = "err" -> M!Err(sc, x, e.id)
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc, X[t])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

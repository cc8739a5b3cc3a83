------------------------------- MODULE DcTrace -------------------------------
(* Conformance of the binary format: scenario "dcw" writes h and rows and     *)
(* reads the file back, "dcr" reads the given bytes.                          *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES st, at, types
D == INSTANCE DcFormat WITH MaxShort <- 32767
Lesser(a, b) == IF a < b THEN a ELSE b
\* the bytes that are read
Data == TLCEval([t \in DOMAIN Traces |-> LET sc == Traces[t].sc IN
          IF sc.op = "dcw" THEN IF D!CanWrite(sc.h) THEN D!Encode(sc.h, sc.rows) ELSE <<>>
          ELSE IF sc.fail >= 0 THEN SubSeq(sc.data, 1, Lesser(sc.fail, Len(sc.data))) ELSE sc.data])
Broken(sc) == IF sc.op = "dcw" THEN FALSE ELSE sc.fail >= 0
VARIABLES t, l
vars == <<t, l, st, at, types>>
dvars == <<st, at, types>>
Init == t \in DOMAIN Traces /\ l = 1 /\ D!Init
Event(e, sc, d) ==
  CASE e.e = "file" -> sc.op = "dcw" /\ st = "start" /\ D!CanWrite(sc.h) /\ e.b = d /\ UNCHANGED dvars
    [] e.e = "werr" -> /\ sc.op = "dcw" /\ ~D!CanWrite(sc.h) /\ st = "start"
                       /\ st' = "refused" /\ UNCHANGED <<at, types>>
    [] e.e = "hdr" -> D!Header(d, [n |-> e.n, t |-> e.t])
    [] e.e = "row" -> D!Row(d, [ts |-> e.ts, v |-> e.v])
    [] e.e = "end" /\ e.r = "ok" -> IF st = "refused" THEN UNCHANGED dvars ELSE D!Eof(d, Broken(sc))
    [] e.e = "end" /\ e.r = "err" -> D!Err(d, Broken(sc))
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc, Data[t])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

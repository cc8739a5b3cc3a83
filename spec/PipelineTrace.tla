--------------------------- MODULE PipelineTrace ----------------------------
(* Conformance: feeds events recorded from the real code to Pipeline.tla.   *)
(* The file holds one JSON object [sc : scenario, ev : events] per line;    *)
(* every line is a behaviour of its own.  A line that cannot be followed to *)
(* its end is rejected.                                                     *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES rem, last, hd, dirty, flushed, nread, atEnd, fail, any, over
P == INSTANCE Pipeline WITH Focus <- IOEnv.FOCUS

X == TLCEval([t \in DOMAIN Traces |-> P!Expect(Traces[t].sc)])

VARIABLES t, l
vars == <<t, l, rem, last, hd, dirty, flushed, nread, atEnd, fail, any, over>>

Init == /\ t \in DOMAIN Traces
        /\ l = 1
        /\ P!ObsInit(Traces[t].sc, X[t])

Event(e, sc, x) ==
  CASE e.e = "read"  -> (CASE e.r = "row" -> P!ReadRow(sc, x, e.i)
                           [] e.r = "eof" -> P!ReadEof(sc, x, e.i)
                           [] e.r = "err" -> P!ReadErr(sc, x, e.i))
    [] e.e = "hdr"   -> P!GotHeader(sc, x, e.s, [n |-> e.n, t |-> e.t])
    [] e.e = "row"   -> P!GotRow(sc, x, e.s, e.ts, e.o, e.v, e.n)
    [] e.e = "werr"  -> P!WriteErr(sc, x, e.s, e.o)
    [] e.e = "flush" -> IF e.r = "ok" THEN P!FlushOk(sc, x, e.s) ELSE P!FlushErr(sc, x, e.s)
    [] e.e = "end"   -> (CASE e.r = "ok"  -> P!EndOk(sc, x)
                           [] e.r = "err" -> P!EndErr(sc, x, e.id)
                           \* a crash, an exit of the process or a hang is never allowed
                           [] OTHER -> FALSE /\ UNCHANGED vars)

Next == /\ l <= Len(Traces[t].ev)
        /\ ~over
        /\ Event(Traces[t].ev[l], Traces[t].sc, X[t])
        /\ l' = l + 1
        /\ t' = t

Spec == Init /\ [][Next]_vars

\* register t holds how far line t could be followed
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

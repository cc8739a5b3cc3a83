--------------------------- MODULE BufReaderTrace ---------------------------
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES pos, avail, inErr, inter
B == INSTANCE BufReader
On(S) == IOEnv.FOCUS = "ALL" \/ IOEnv.FOCUS \in S
X == TLCEval([t \in DOMAIN Traces |->
        IF Traces[t].sc.prev /\ On({"C14"}) THEN B!Preview(Traces[t].sc.data, 8192)
        ELSE [buf |-> <<>>, text |-> TRUE, lines |-> {}]])
VARIABLES t, l
vars == <<t, l, pos, avail, inErr, inter>>
Init == t \in DOMAIN Traces /\ l = 1 /\ B!Init
Event(e, d, x) ==
  CASE e.e = "in"   -> B!Inner(e.r)
    [] e.e = "read" -> B!Read(d, e.n, e.b)
    [] e.e = "fill" -> B!Fill(d, e.b)
    [] e.e = "cons" -> B!Consume(d, e.n)
    [] e.e = "all"  -> B!ReadAll(d, e.b)
    [] e.e = "line" -> B!ReadLine(d, e.b)
    [] e.e = "exact" -> B!Exact(d, e.n, e.b)
    [] e.e = "short" -> B!Short(d, e.n)
    [] e.e = "some" -> B!Some(d, e.n, e.b)
    [] e.e = "text" -> B!Text(d, e.line, e.b)
    [] e.e = "notext" -> B!NoText(d, e.line)
    [] e.e = "fail" -> B!Failed(d, e.op, e.b)
    [] e.e = "prev" -> /\ ~inErr /\ B!Over /\ UNCHANGED <<pos, avail>>
                       /\ On({"C14"}) => /\ e.b = x.buf
                                         /\ e.text = x.text
                                         /\ x.text => e.lines \in x.lines
    [] e.e = "end" /\ e.r = "ok" -> UNCHANGED <<pos, avail, inErr, inter>>
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc.data, X[t])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Traces[k].ev[Len(Traces[k].ev)].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

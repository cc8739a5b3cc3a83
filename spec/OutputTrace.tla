----------------------------- MODULE OutputTrace ------------------------------
(* Conformance of the csv and binary outputs with destinations that fill up.   *)
EXTENDS Naturals, Sequences, SequencesExt, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES st, taken, run
O == INSTANCE Output
C == INSTANCE CsvOut
D == INSTANCE DcFormat WITH MaxShort <- 32767, at <- 0, types <- <<>>

\* (sequences are put together by halves: they can be long)
RECURSIVE Joined(_, _, _)
Joined(p, i, j) == IF j < i THEN <<>> ELSE IF i = j THEN p[i] ELSE LET m == (i + j) \div 2 IN Joined(p, i, m) \o Joined(p, m + 1, j)
All(p) == Joined(p, 1, Len(p))
Bytes(t) == IF \A i \in DOMAIN t : t[i] < 128 THEN t ELSE All([i \in DOMAIN t |-> D!Encoded(t[i])])
CsvLine(cfg, line) == LET f == C!Flat(cfg, line) IN All([i \in DOMAIN f |-> Bytes(f[i][2])])
CsvPieces(k, sc) == [i \in 1..(1 + Len(sc.rows)) |-> CsvLine(k.cfg, IF i = 1 THEN C!HeadLine(k.cfg, sc.names) ELSE C!RowLine(k.cfg, sc.rows[i - 1]))]
DcRow(r) == [ts |-> r.tb, v |-> [i \in DOMAIN r.v |-> IF r.v[i].k = "N" THEN D!Null ELSE <<r.v[i].k, r.v[i].b>>]]
DcPieces(sc) == [i \in 1..(1 + Len(sc.rows)) |->
                   IF i = 1 THEN D!EncodeHeader([n |-> [j \in DOMAIN sc.names |-> Bytes(sc.names[j])], t |-> sc.types]) ELSE D!EncodeRow(DcRow(sc.rows[i - 1]))]
Sums(p) == FoldLeft(LAMBDA s, x : Append(s, Len(x) + (IF s = <<>> THEN 0 ELSE s[Len(s)])), <<>>, p)
Plenty == 1000000000
Known(sc) == [s \in DOMAIN sc.sinks |->
  LET k == sc.sinks[s]
      p == TLCEval(IF k.fmt = "csv" THEN CsvPieces(k, sc) ELSE DcPieces(sc))
  IN [text |-> All(p), ends |-> Sums(p), room |-> IF k.to # "file" THEN 0 ELSE IF sc.cap < 0 THEN Plenty ELSE sc.cap]]
X == TLCEval([t \in DOMAIN Traces |-> Known(Traces[t].sc)])

VARIABLES t, l
vars == <<t, l, st, taken, run>>
Init == t \in DOMAIN Traces /\ l = 1 /\ O!Start(Len(Traces[t].sc.sinks))
\* nothing can be found at a full device or in a pipe without a reader
There(sc, e, x) == IF sc.sinks[e.s].to # "file" THEN <<>> ELSE e.b
Event(e, sc, x) ==
  CASE e.e = "open" -> O!Open(x, e.s, e.r = "ok")
    [] e.e = "row" -> O!Take(x, e.s, e.i, e.r = "ok")
    [] e.e = "flush" -> O!Flush(x, e.s, e.r = "ok", There(sc, e, x))
    [] e.e = "end" /\ e.r \in {"ok", "err"} -> O!End(x, e.r = "ok")
    [] e.e = "file" -> O!Found(x, e.s, There(sc, e, x))
    [] OTHER -> FALSE /\ UNCHANGED vars
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc, X[t])
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ \E j \in DOMAIN Traces[k].ev : Traces[k].ev[j].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
===============================================================================

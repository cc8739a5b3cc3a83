----------------------------- MODULE StreamTrace ------------------------------
(* Conformance of reads of inputs without an end. *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES low, high, rows
S == INSTANCE Stream WITH RawAhead <- 131072, DecAhead <- 131072, OutAhead <- 131072, RowsAhead <- 3, HeapRoom <- 4194304, HeapDrift <- 524288
VARIABLES t, l
vars == <<t, l, low, high, rows>>
Sum(c) == FoldLeft(LAMBDA a, b : a + b, 0, c)
Init == t \in DOMAIN Traces /\ l = 1 /\ S!Start(Len(Traces[t].sc.x))
Same == UNCHANGED <<low, high, rows>>
Event(e, sc) ==
  CASE e.e \in {"row", "last"} ->
         /\ LET taken == IF sc.seen THEN e.taken ELSE [i \in DOMAIN sc.x |-> S!Must(sc.x[i], e.rows[i])]
            IN IF e.e = "row" THEN S!Look(sc.x, e.rows, taken, e.heap, Sum(e.rows) >= sc.settled)
               ELSE S!Count(sc.x, e.rows, taken) /\ UNCHANGED <<low, high>>
         /\ e.live <= sc.live
         /\ \A i \in DOMAIN e.out : S!Written(Sum(e.rows), sc.outlen, e.out[i])
    [] e.e = "held" -> ~ S!Due(sc.x[1], e.sent, (e.out + sc.behind) \div sc.outlen) /\ Same
    [] e.e = "read" -> Same
    [] e.e = "end" -> e.r = sc.ends /\ (sc.gates > 0 \/ sc.total = Sum(rows)) /\ Same
    [] OTHER -> FALSE /\ Same
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Held(k) == \* all the gates were reached
  Cardinality({j \in DOMAIN Traces[k].ev : Traces[k].ev[j].e = "held"}) = Traces[k].sc.gates
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Held(k) /\ \E j \in DOMAIN Traces[k].ev : Traces[k].ev[j].e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
===============================================================================

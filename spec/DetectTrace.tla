----------------------------- MODULE DetectTrace ------------------------------
(* Conformance of the decision: inputs of one setup, one after the other; a     *)
(* reader is known by the column it names, what it read by a value in it or,      *)
(* for readers of the user, by a digest of all bytes.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils
Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
VARIABLES t, l
vars == <<t, l>>
D == INSTANCE Detect
Init == t \in DOMAIN Traces /\ l = 1
Last(s) == s[Len(s)]
\* what becomes of one file: "error", "junk" (taken for text, whatever it is), or who reads it and what
Outcome(w, n) ==
  LET s == D!Decide(w, n)
      base == Last(s.ls)
      \* what is read there is what the reader can read
      fits == s.i = Len(s.ls) /\ base.is = s.by
      user == {k \in DOMAIN w.users : s.by = D!Who(w, k)}
  IN CASE s.by = "error" -> [by |-> "error", pay |-> ""]
       [] user # {} -> IF \E k \in user : w.users[k].fail THEN [by |-> "error", pay |-> ""]
                       ELSE [by |-> s.by, pay |-> s.ls[s.i].h]
       [] fits -> [by |-> s.by, pay |-> base.pay]
       [] s.by = "dc" -> [by |-> "error", pay |-> ""]
       [] OTHER -> [by |-> "junk", pay |-> ""]
\* the files of a directory have one reader, and a format that is given is that of all of them
Good(w, n, e) ==
  LET files == <<n>> \o [i \in DOMAIN n.more |-> [n EXCEPT !.path = n.more[i].path, !.layers = n.more[i].layers]]
      out == [i \in DOMAIN files |-> Outcome(w, files[i])]
      by == {out[i].by : i \in DOMAIN out}
  IN CASE "junk" \in by -> e.r = "err" \/ (e.r = "ok" /\ e.by = "other" /\ out[1].by = "junk")
       [] "error" \in by -> e.r = "err"
       [] Cardinality(by) > 1 -> e.r = "err"
       [] OTHER -> e.r = "ok" /\ by = {e.by} /\ e.pay = [i \in DOMAIN out |-> out[i].pay]
Event(e, sc) ==
  CASE e.e = "det" -> e.i = l /\ l <= Len(sc.inputs) /\ Good(sc.setup, sc.inputs[l], e)
    [] e.e = "end" -> e.r = "ok" /\ l = Len(sc.inputs) + 1
    [] OTHER -> FALSE
Next == /\ l <= Len(Traces[t].ev)
        /\ Event(Traces[t].ev[l], Traces[t].sc)
        /\ l' = l + 1 /\ t' = t
Spec == Init /\ [][Next]_vars
Progress == TLCSet(t, l)
Accepted(k) == TLCGet(k) = Len(Traces[k].ev) + 1 /\ Last(Traces[k].ev).e = "end"
Report == \A k \in DOMAIN Traces : IF Accepted(k) THEN TRUE ELSE PrintT(<<"REJECTED", k, TLCGet(k)>>)
=============================================================================

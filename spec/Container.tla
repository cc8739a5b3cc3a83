------------------------------ MODULE Container ------------------------------
(***************************************************************************)
(* Compressed and packaged inputs.  A container is a sequence of parts that *)
(* are complete on their own (gzip members, frames): part i ends at byte    *)
(* parts[i].c and holds the data up to byte parts[i].p.  What a source must *)
(* yield is told by what it yields from the plain data.                     *)
(*                                                                          *)
(* Reads: <<"plain", p>> the first p bytes of the data, not packaged        *)
(*        <<"whole">>    the container                                      *)
(*        <<"cut", k>>   its first k bytes only                             *)
(*        <<"flip", k>>  with byte k changed                                *)
(*        <<"sum", k>>   with the checksum at byte k replaced by another       *)
(*        <<"bad">>      something that is not one file                     *)
(* A result is [r |-> "ok" or "err", n |-> rows, d |-> digest].             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE plain     \* results of the plain reads made so far, by length
Init == plain = <<>>

Same(a, b) == a.r = b.r /\ (a.r = "ok" => a.n = b.n /\ a.d = b.d)
Total(sc) == sc.parts[Len(sc.parts)].p

\* the part that is complete when the container is cut at byte k, if any
EndsAt(sc, k) == {i \in DOMAIN sc.parts : sc.parts[i].c = k}

Allowed(sc, what, x) ==
  CASE what[1] = "whole" -> x.r = "ok" /\ Same(x, plain[Total(sc)])
    [] what[1] = "cut" ->
         IF EndsAt(sc, what[2]) # {} THEN \E i \in EndsAt(sc, what[2]) : Same(x, plain[sc.parts[i].p])
         ELSE x.r = "err" \/ (what[2] >= sc.safe /\ Same(x, plain[Total(sc)]))
    [] what[1] = "flip" -> x.r = "err" \/ Same(x, plain[Total(sc)])
    [] what[1] = "sum" -> x.r = "err"
    [] what[1] = "bad" -> x.r = "err"

Plain(what, x) == /\ what[1] = "plain"
                  /\ x.r \in {"ok", "err"}
                  /\ plain' = [p \in DOMAIN plain \cup {what[2]} |-> IF p = what[2] THEN x ELSE plain[p]]
Read(sc, what, x) == /\ what[1] # "plain"
                     /\ x.r \in {"ok", "err"}
                     /\ Allowed(sc, what, x)
                     /\ UNCHANGED plain
=============================================================================

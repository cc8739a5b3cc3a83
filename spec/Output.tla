-------------------------------- MODULE Output --------------------------------
(***************************************************************************)
(* Outputs in front of destinations that take only so many bytes.  X[s]      *)
(* says for output s: text (the bytes that make up its header and all rows),   *)
(* ends (ends[1]: bytes of the header, ends[1 + i]: of everything up to row i),  *)
(* room (bytes its destination takes).  An output may hold back what it was     *)
(* given until it is flushed.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES st,      \* st[s]: "new", "open", "flushed" (nothing was written since), "failed"
          taken,   \* taken[s]: rows it has taken
          run      \* "going", "ok", "err"

Start(n) == st = [s \in 1..n |-> "new"] /\ taken = [s \in 1..n |-> 0] /\ run = "going"

Rows(X, s) == Len(X[s].ends) - 1
Given(X, s, n) == X[s].ends[1 + n]
IsPart(b, text) == Len(b) <= Len(text) /\ b = SubSeq(text, 1, Len(b))

Open(X, s, ok) ==
  /\ run = "going" /\ st[s] = "new"
  /\ ~ok => Given(X, s, 0) > X[s].room
  /\ st' = [st EXCEPT ![s] = IF ok THEN "open" ELSE "failed"]
  /\ UNCHANGED <<taken, run>>

Take(X, s, i, ok) ==
  /\ run = "going" /\ st[s] \in {"open", "flushed"}
  /\ \A x \in DOMAIN st : st[x] # "failed"
  /\ i = taken[s] + 1 /\ i <= Rows(X, s)
  \* only what has been given to it may be too much
  /\ ~ok => Given(X, s, i) > X[s].room
  /\ st' = [st EXCEPT ![s] = IF ok THEN "open" ELSE "failed"]
  /\ taken' = IF ok THEN [taken EXCEPT ![s] = i] ELSE taken
  /\ UNCHANGED run

\* there: what is found at the destination then
Flush(X, s, ok, there) ==
  /\ run = "going" /\ st[s] \in {"open", "flushed"}
  /\ IF ok THEN /\ Given(X, s, taken[s]) <= X[s].room
                /\ there = SubSeq(X[s].text, 1, Given(X, s, taken[s]))
     ELSE Given(X, s, taken[s]) > X[s].room
  /\ st' = [st EXCEPT ![s] = IF ok THEN "flushed" ELSE "failed"]
  /\ UNCHANGED <<taken, run>>

\* success means that all has arrived
End(X, ok) ==
  /\ run = "going"
  /\ IF ok THEN \A s \in DOMAIN st : st[s] = "flushed" /\ taken[s] = Rows(X, s)
     ELSE \E s \in DOMAIN st : st[s] = "failed"
  /\ run' = IF ok THEN "ok" ELSE "err"
  /\ UNCHANGED <<st, taken>>

\* what is there in the end
Found(X, s, b) ==
  /\ run \in {"ok", "err"}
  /\ IF run = "ok" THEN b = X[s].text
     ELSE /\ IsPart(b, X[s].text)
          /\ Len(b) <= X[s].room
          /\ Len(b) <= Given(X, s, IF taken[s] < Rows(X, s) THEN taken[s] + 1 ELSE taken[s])
  /\ UNCHANGED <<st, taken, run>>
===============================================================================

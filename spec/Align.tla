-------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* Design of the column alignment: an in-place swap map is built column by  *)
(* column and later applied to every row.  Checked for all headers up to    *)
(* MaxCols columns over Names x Types against MultiFile's Assignments.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxCols, Names, Types

VARIABLES cur, pos, maps, over
M == INSTANCE MultiFile WITH Focus <- "ALL"

Hdrs == UNION {[1..k -> Names \X Types] : k \in 0..MaxCols}
VARIABLES ref, new, work, i, swap, res
vars == <<ref, new, work, i, swap, res, cur, pos, maps, over>>

Nm(h) == [k \in DOMAIN h |-> h[k][1]]
Ty(h) == [k \in DOMAIN h |-> h[k][2]]
Swapped(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]

Init == /\ ref \in Hdrs /\ new \in Hdrs
        /\ work = new /\ i = 1 /\ swap = <<>> /\ res = "run"
        /\ cur = 0 /\ pos = 0 /\ maps = {} /\ over = ""

\* looks for the i-th column of ref at or behind position i of the working header
Step ==
  /\ res = "run"
  /\ UNCHANGED <<ref, new, cur, pos, maps, over>>
  /\ IF i > Len(ref) THEN res' = "ok" /\ UNCHANGED <<work, i, swap>>
     ELSE LET c == {j \in i..Len(work) : work[j][1] = ref[i][1]} IN
          IF c = {} THEN res' = "missing" /\ UNCHANGED <<work, i, swap>>
          ELSE LET j == CHOOSE j \in c : \A k \in c : j <= k IN
               IF work[j][2] # ref[i][2] THEN res' = "type" /\ UNCHANGED <<work, i, swap>>
               ELSE /\ swap' = Append(swap, j)
                    /\ work' = Swapped(work, i, j)
                    /\ i' = i + 1 /\ res' = "run"
Spec == Init /\ [][Step]_vars

\* the rows are told apart by numbering the values
RECURSIVE ApplySwap(_, _, _)
ApplySwap(v, s, k) == IF k > Len(s) THEN SubSeq(v, 1, Len(s)) ELSE ApplySwap(Swapped(v, k, s[k]), s, k + 1)
RowOut == ApplySwap([k \in DOMAIN new |-> k], swap, 1)

Plan == M!Plan([n |-> Nm(ref), t |-> Ty(ref)], [n |-> Nm(new), t |-> Ty(new)])
Correct ==
  /\ res = "ok" => RowOut \in Plan.fit
  /\ res \in {"missing", "type"} => Plan.mayFail
  /\ res = "missing" => Plan.fit = {} \/ Plan.mayFail
=============================================================================

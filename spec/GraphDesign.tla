---------------------------- MODULE GraphDesign -----------------------------
(***************************************************************************)
(* How header_graph.rs examines a graph: the headers of the inputs walk     *)
(* through the chains depth first, a merging chain waits until the last of  *)
(* its inputs has arrived, and a chain is taken out when it is processed.   *)
(* Then every row, and every flush, walks through what has been processed.  *)
(* In lock step with Graph.tla, for all small graphs: a disagreement about  *)
(* which graphs are consistent shows up as a deadlock.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NChains,      \* up to so many chains
          NSources, MaxBody, MaxSplit, MaxNeed,
          Checks        \* which inconsistencies are looked for (all of them; fewer: for trying out)

VARIABLES g, x, ph, cur, stk, left, done, owed, hd, dirty, over
dvars == <<g, x, ph, cur, stk, left, done>>
gvars == <<owed, hd, dirty, over>>
vars == <<g, x, ph, cur, stk, left, done, owed, hd, dirty, over>>
G == INSTANCE Graph

Ids == 1..(NChains + 1)
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Edge == {[k |-> "merge", to |-> c] : c \in Ids} \cup {[k |-> "split", to |-> s] : s \in Seqs(Ids, 0, MaxSplit)}
Bodies(c) == {b \o <<[k |-> "rec", s |-> c]>> : b \in Seqs(Edge, 0, MaxBody)}
Chains(c) == Bodies(c) \cup {<<[k |-> "msink", x |-> n]>> \o b : n \in 1..MaxNeed, b \in Bodies(c)} \cup {<<>>}
Plain(ch) == \A c \in DOMAIN ch : Len(ch[c]) <= 1
Src == [rows |-> <<0>>]

Init ==
  /\ \E a \in Chains(1), b \in IF NChains > 1 THEN Chains(2) ELSE {<<>>}, d \in IF NChains > 2 THEN Chains(3) ELSE {<<>>} :
     \E n \in {1, NChains}, m, h \in 1..NSources :
       LET ch == SubSeq(<<a, b, d>>, 1, n)
       IN /\ n = 1 => b = <<>> /\ d = <<>>
          /\ h # m => Plain(ch)
          /\ g = [sources |-> [i \in 1..m |-> Src], nh |-> h, chains |-> ch]
  /\ x = G!Expect(g)
  /\ G!GInit(x)
  /\ ph = "check" /\ cur = 1 /\ stk = <<>> /\ done = {}
  /\ left = [c \in DOMAIN g.chains |-> G!Need(g, c)]

Quiet == UNCHANGED gvars
Stay == UNCHANGED <<g, x>>
Fail == ph' = "err" /\ Quiet /\ UNCHANGED <<cur, stk, left, done>>
Looks(what, bad) == what \in Checks /\ bad

Check ==
  /\ ph = "check"
  /\ IF Looks("counts", Len(g.sources) > Len(g.chains) \/ g.nh # Len(g.sources)) THEN Fail
     ELSE ph' = "hdr" /\ Quiet /\ UNCHANGED <<cur, stk, left, done>>

Exists(c) == c \in DOMAIN g.chains
Waits(c) == G!Merges(g, c) /\ c \notin done
Start(c, rest) ==
  IF Looks("twice", c \in done) THEN Fail
  ELSE /\ done' = done \cup {c}
       /\ stk' = (IF c \in done THEN <<>> ELSE <<[k |-> "at", c |-> c, n |-> 1]>>) \o rest
       /\ Quiet /\ UNCHANGED <<ph, cur>>

\* the header of an input, or one coming out of a split or a merge node, reaches chain c
Arrive(c, rest, merging) ==
  IF ~Exists(c) THEN Fail
  ELSE IF ~Waits(c) THEN (IF merging THEN Fail ELSE Start(c, rest) /\ UNCHANGED left)
  ELSE /\ left' = [left EXCEPT ![c] = @ - 1]
       /\ IF left[c] = 1 THEN Start(c, rest)
          ELSE stk' = rest /\ Quiet /\ UNCHANGED <<ph, cur, done>>

Headers ==
  /\ ph = "hdr"
  /\ IF stk = <<>>
     THEN IF cur <= g.nh
          THEN /\ stk' = <<[k |-> "in", c |-> cur, n |-> 0]>> /\ cur' = cur + 1 /\ Quiet /\ UNCHANGED <<ph, left, done>>
          ELSE IF Looks("missing", \E c \in DOMAIN g.chains : Waits(c)) THEN Fail
          ELSE ph' = "run" /\ cur' = 1 /\ Quiet /\ UNCHANGED <<stk, left, done>>
     ELSE LET k == Head(stk)
              rest == Tail(stk)
          IN
       CASE k.k = "in" -> Arrive(k.c, rest, FALSE)
         [] k.k = "to" -> Arrive(k.c, rest, TRUE)
         [] k.k = "at" ->
              IF k.n > Len(g.chains[k.c]) THEN stk' = rest /\ Quiet /\ UNCHANGED <<ph, cur, left, done>>
              ELSE LET nd == g.chains[k.c][k.n]
                       next == [k EXCEPT !.n = @ + 1]
                   IN
                CASE nd.k = "rec" -> /\ G!GHeader(x, nd.s)
                                     /\ stk' = <<next>> \o rest /\ UNCHANGED <<ph, cur, left, done>>
                  [] nd.k = "msink" -> stk' = <<next>> \o rest /\ Quiet /\ UNCHANGED <<ph, cur, left, done>>
                  [] nd.k = "merge" -> /\ stk' = <<[k |-> "to", c |-> nd.to, n |-> 0], next>> \o rest
                                       /\ Quiet /\ UNCHANGED <<ph, cur, left, done>>
                  [] nd.k = "split" ->
                       IF nd.to = <<>> THEN Fail
                       ELSE /\ stk' = [j \in DOMAIN nd.to |-> [k |-> "in", c |-> nd.to[j], n |-> 0]] \o <<next>> \o rest
                            /\ Quiet /\ UNCHANGED <<ph, cur, left, done>>

\* the row of input cur, then its flush
Run ==
  /\ ph = "run"
  /\ UNCHANGED <<left, done>>
  /\ IF stk = <<>>
     THEN IF cur > Len(g.sources)
          THEN G!GEndOk(x) /\ ph' = "done" /\ UNCHANGED <<cur, stk>>
          ELSE /\ G!GRead(x) /\ cur' = cur + 1 /\ ph' = ph
               /\ stk' = <<[k |-> "row", c |-> cur, n |-> 1], [k |-> "flush", c |-> cur, n |-> 1]>>
     ELSE LET k == Head(stk)
              rest == Tail(stk)
              next == [k EXCEPT !.n = @ + 1]
              into(c) == [k EXCEPT !.c = c, !.n = 1]
          IN
       /\ UNCHANGED <<ph, cur>>
       /\ IF k.c \notin done THEN stk' = rest /\ Quiet
          ELSE IF k.n > Len(g.chains[k.c]) THEN stk' = rest /\ Quiet
          ELSE LET nd == g.chains[k.c][k.n] IN
            CASE nd.k = "rec" -> /\ (IF k.k = "row" THEN G!GRow(x, nd.s) ELSE G!GFlush(x, nd.s))
                                 /\ stk' = <<next>> \o rest
              [] nd.k = "merge" -> stk' = <<into(nd.to), next>> \o rest /\ Quiet
              [] nd.k = "split" -> stk' = [j \in DOMAIN nd.to |-> into(nd.to[j])] \o <<next>> \o rest /\ Quiet
              [] OTHER -> stk' = <<next>> \o rest /\ Quiet

Refuse == ph = "err" /\ G!GEndErr(x) /\ ph' = "done" /\ UNCHANGED <<cur, stk, left, done>>

Finished == over /\ UNCHANGED vars

Next == ((Check \/ Headers \/ Run \/ Refuse) /\ Stay) \/ Finished
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE OutputDesign -----------------------------
(***************************************************************************)
(* A buffered writer of capacity Buf in front of a file that holds at most     *)
(* room bytes, in lock step with Output.tla: pieces that do not fit behind what  *)
(* is buffered make it write the buffer first, large ones go past it, a write     *)
(* may take a part of what it is given.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Buf, MaxPiece, MaxRows, MaxRoom
VARIABLES st, taken, run, known, file, buf, todo, ph
O == INSTANCE Output
vars == <<st, taken, run, known, file, buf, todo, ph>>
RECURSIVE Ends(_, _, _)
Ends(p, i, n) == IF i > Len(p) THEN <<>> ELSE <<n + p[i]>> \o Ends(p, i + 1, n + p[i])
Sum(p) == IF p = <<>> THEN 0 ELSE Ends(p, 1, 0)[Len(p)]
Lens == UNION {[1..(1 + n) -> 0..MaxPiece] : n \in 0..MaxRows}

Init == /\ \E p \in Lens, r \in 0..MaxRoom : known = <<[text |-> [i \in 1..Sum(p) |-> i], ends |-> Ends(p, 1, 0), room |-> r]>>
        /\ O!Start(1)
        /\ file = <<>> /\ buf = <<>> /\ todo = <<>> /\ ph = "idle"
K == known[1]
Piece(i) == SubSeq(K.text, (IF i = 0 THEN 0 ELSE K.ends[i]) + 1, K.ends[i + 1])
Full == Len(file) >= K.room

\* something is given to the writer
Give == /\ ph = "idle" /\ run = "going" /\ st[1] # "failed"
        /\ \/ st[1] = "new" /\ todo' = Piece(0) /\ ph' = "write"
           \/ st[1] # "new" /\ taken[1] < O!Rows(known, 1) /\ todo' = Piece(taken[1] + 1) /\ ph' = "write"
           \/ st[1] # "new" /\ todo' = <<>> /\ ph' = "flush"
        /\ UNCHANGED <<st, taken, run, known, file, buf>>
Answer(ok) == /\ IF ph = "flush" THEN O!Flush(known, 1, ok, file)
                 ELSE IF st[1] = "new" THEN O!Open(known, 1, ok) ELSE O!Take(known, 1, taken[1] + 1, ok)
              /\ ph' = "idle" /\ todo' = <<>>
              /\ UNCHANGED known
\* a write of the buffer, or of what is given if the buffer is empty and that is large
Out == /\ ph \in {"write", "flush"}
       /\ LET spill == buf # <<>> /\ (ph = "flush" \/ Len(buf) + Len(todo) > Buf)
              past == buf = <<>> /\ ph = "write" /\ Len(todo) >= Buf /\ todo # <<>>
              what == IF spill THEN buf ELSE todo
          IN /\ spill \/ past
             /\ IF Full THEN Answer(FALSE) /\ UNCHANGED <<file, buf>>
                ELSE \E n \in 1..Len(what) :
                       /\ Len(file) + n <= K.room
                       /\ file' = file \o SubSeq(what, 1, n)
                       /\ LET rest == SubSeq(what, n + 1, Len(what)) IN
                          IF spill THEN buf' = rest /\ todo' = todo ELSE buf' = buf /\ todo' = rest
                       /\ UNCHANGED <<st, taken, run, known, ph>>
Done == /\ ph \in {"write", "flush"}
        /\ IF ph = "flush" THEN buf = <<>> ELSE (Len(buf) + Len(todo) <= Buf /\ ~(buf = <<>> /\ Len(todo) >= Buf /\ todo # <<>>))
        /\ Answer(TRUE)
        /\ buf' = buf \o todo
        /\ UNCHANGED file
Finish == /\ ph = "idle" /\ run = "going"
          /\ \/ st[1] = "failed" /\ O!End(known, FALSE)
             \/ st[1] = "flushed" /\ taken[1] = O!Rows(known, 1) /\ O!End(known, TRUE)
          /\ UNCHANGED <<known, file, buf, todo, ph>>
\* what is left in the buffer may still go out when the writer is dropped
Drop == /\ run # "going" /\ buf # <<>> /\ ~Full
        /\ \E n \in 1..Len(buf) : /\ Len(file) + n <= K.room
                                  /\ file' = file \o SubSeq(buf, 1, n) /\ buf' = SubSeq(buf, n + 1, Len(buf))
        /\ UNCHANGED <<st, taken, run, known, todo, ph>>
Over == run # "going" /\ UNCHANGED vars
Next == Give \/ Out \/ Done \/ Finish \/ Drop \/ Over
Spec == Init /\ [][Next]_vars
\* whatever is there in the end is allowed
Right == run # "going" => (IF run = "ok" THEN file = K.text ELSE O!IsPart(file, K.text) /\ Len(file) <= O!Given(known, 1, IF taken[1] < O!Rows(known, 1) THEN taken[1] + 1 ELSE taken[1]))
===============================================================================

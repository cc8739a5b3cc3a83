------------------------------- MODULE BufImpl ------------------------------
(***************************************************************************)
(* Design of the buffered reader (reader.rs): a buffer of Cap bytes with a  *)
(* read position and a fill mark; large reads bypass an empty buffer; the   *)
(* preview fills the buffer before anything is read.  Runs in lock step     *)
(* with BufReader.tla over an input of MaxLen numbered bytes that is handed *)
(* out in arbitrary pieces and fails at most MaxErr times.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, MaxLen, MaxErr

VARIABLES pos, avail, inErr, inter
B == INSTANCE BufReader

VARIABLES len,   \* length of the input
          in,    \* bytes taken from the input
          buf, p, \* buffered bytes and how many of them are used up
          errs,  \* failures so far
          mode,  \* "prefill", "idle", or the operation in progress
          want,  \* its size
          out    \* what it returns
vars == <<pos, avail, inErr, inter, len, in, buf, p, errs, mode, want, out>>

Data == [k \in 1..len |-> k]
Init == /\ len \in 0..MaxLen
        /\ in = 0 /\ buf = <<>> /\ p = 0 /\ errs = 0
        /\ mode \in {"prefill", "idle"} /\ want = 0 /\ out = <<>>
        /\ B!Init

\* the input is asked for up to n bytes: what may come back
Take(n) == IF in = len THEN {<<>>} ELSE {SubSeq(Data, in + 1, in + k) : k \in 1..B!Lesser(n, len - in)}

InnerFails == /\ errs < MaxErr
              /\ errs' = errs + 1 /\ B!Inner("err")
              /\ mode' = "failed" /\ UNCHANGED <<len, in, buf, p, want, out>>

\* the input is interrupted, which is passed on
Interrupted == /\ errs < MaxErr
               /\ errs' = errs + 1 /\ B!Inner("int")
               /\ mode' = "failed" /\ UNCHANGED <<len, in, buf, p, want, out>>

\* the preview: fill the buffer until it is full or the input ends
Prefill == /\ mode = "prefill"
           /\ \/ InnerFails \/ Interrupted
              \/ \E b \in Take(Cap - Len(buf)) :
                   /\ buf' = buf \o b /\ in' = in + Len(b)
                   /\ mode' = IF b = <<>> \/ Len(buf') = Cap THEN "idle" ELSE "prefill"
                   /\ B!Inner("ok") /\ UNCHANGED <<len, p, errs, want, out>>

\* an operation starts
Start == /\ mode = "idle"
         /\ \E m \in {"read", "fill"}, n \in 0..(Cap + 1) :
              /\ mode' = m /\ want' = n
              /\ UNCHANGED <<pos, avail, inErr, inter, len, in, buf, p, errs, out>>

Left == SubSeq(buf, p + 1, Len(buf))

\* the buffer is used up: ask the input, directly for a large read
Refill == /\ mode \in {"read", "fill"} /\ p = Len(buf)
          /\ \/ InnerFails \/ Interrupted
             \/ \E b \in Take(IF mode = "read" /\ want >= Cap THEN want ELSE Cap) :
                  /\ in' = in + Len(b)
                  /\ B!Inner("ok")
                  /\ IF mode = "read" /\ want >= Cap
                     THEN out' = b /\ buf' = <<>> /\ p' = 0 /\ mode' = "return"
                     ELSE buf' = b /\ p' = 0 /\ mode' = mode \o "2" /\ UNCHANGED out
                  /\ UNCHANGED <<len, errs, want>>

FromBuf == /\ mode \in {"read", "fill"} /\ p < Len(buf)
           /\ mode' = mode \o "2"
           /\ UNCHANGED <<pos, avail, inErr, inter, len, in, buf, p, errs, want, out>>

Return == \/ /\ mode = "return"
             /\ B!Read(Data, want, out)
             /\ mode' = "idle" /\ UNCHANGED <<len, in, buf, p, errs, want, out>>
          \/ /\ mode = "read2"
             /\ LET n == B!Lesser(want, Len(Left)) IN
                /\ B!Read(Data, want, SubSeq(Left, 1, n))
                /\ p' = p + n
             /\ mode' = "idle" /\ UNCHANGED <<len, in, buf, errs, want, out>>
          \/ /\ mode = "fill2"
             /\ B!Fill(Data, Left)
             /\ mode' = "idle" /\ UNCHANGED <<len, in, buf, p, errs, want, out>>
          \/ /\ mode = "failed"
             /\ B!Failed(Data, "read", <<>>)
             /\ mode' = "idle" /\ UNCHANGED <<len, in, buf, p, errs, want, out>>

Consume == /\ mode = "idle"
           /\ \E k \in 1..avail :
                /\ B!Consume(Data, k) /\ p' = p + k
           /\ UNCHANGED <<len, in, buf, errs, mode, want, out>>

Next == Prefill \/ Start \/ Refill \/ FromBuf \/ Return \/ Consume
Spec == Init /\ [][Next]_vars

\* nothing is lost between the input and the user
Conserved == mode = "idle" => pos + Len(Left) = in
=============================================================================

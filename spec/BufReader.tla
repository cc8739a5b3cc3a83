------------------------------ MODULE BufReader -----------------------------
(***************************************************************************)
(* Buffered reading and previewing.  data is the whole input, a sequence of *)
(* bytes; the input hands it out in pieces of its own choice and may report *)
(* failures in between.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Utf8

VARIABLES
  pos,    \* bytes handed to the user
  avail,  \* bytes the last fill_buf returned, 0 if something else happened since
  inErr,  \* the input has reported a failure that was not passed on yet
  inter   \* the input was interrupted during the operation at hand: it asks for another attempt

Init == pos = 0 /\ avail = 0 /\ inErr = FALSE /\ inter = FALSE

Lesser(a, b) == IF a < b THEN a ELSE b
Rest(data) == SubSeq(data, pos + 1, Len(data))
IsRestPrefix(data, b) == pos + Len(b) <= Len(data) /\ SubSeq(data, pos + 1, pos + Len(b)) = b

\* the input itself was read: how = "ok" (bytes or its end), "err" (a failure), "int" (interrupted)
Inner(how) == /\ inErr' = (inErr \/ how = "err")
              /\ inter' = (inter \/ how = "int")
              /\ UNCHANGED <<pos, avail>>

\* an operation is over
Over == inter' = FALSE /\ UNCHANGED inErr

\* read with room for n bytes returned b
Read(data, n, b) ==
  /\ ~inErr
  /\ Len(b) <= n
  /\ IsRestPrefix(data, b)
  /\ b = <<>> => n = 0 \/ pos = Len(data)
  /\ pos' = pos + Len(b) /\ avail' = 0 /\ Over

\* fill_buf returned b
Fill(data, b) ==
  /\ ~inErr
  /\ IsRestPrefix(data, b)
  /\ b = <<>> => pos = Len(data)
  /\ avail' = Len(b) /\ UNCHANGED pos /\ Over

Consume(data, k) ==
  /\ k <= avail
  /\ pos' = pos + k /\ avail' = avail - k /\ Over

\* everything up to the end was read
ReadAll(data, b) ==
  /\ ~inErr
  /\ b = Rest(data)
  /\ pos' = Len(data) /\ avail' = 0 /\ Over

\* everything up to and including the next line feed was read
UpToLf(data) == LET r == Rest(data)
                    lf == {j \in DOMAIN r : r[j] = 10}
                IN IF lf = {} THEN r ELSE SubSeq(r, 1, CHOOSE j \in lf : \A k \in lf : j <= k)
ReadLine(data, b) ==
  /\ ~inErr
  /\ b = UpToLf(data)
  /\ pos' = pos + Len(b) /\ avail' = 0 /\ Over

\* exactly n bytes were read
Exact(data, n, b) ==
  /\ ~inErr
  /\ Len(b) = n /\ IsRestPrefix(data, b)
  /\ pos' = pos + n /\ avail' = 0 /\ Over

\* ... or could not, since there are less of them; what is left is unspecified
Short(data, n) == ~inErr /\ pos + n > Len(data) /\ avail' = 0 /\ UNCHANGED pos /\ Over

\* as many of n bytes as there are were read
Some(data, n, b) ==
  /\ ~inErr
  /\ IsRestPrefix(data, b)
  /\ Len(b) = Lesser(n, Len(data) - pos)
  /\ pos' = pos + Len(b) /\ avail' = 0 /\ Over

\* everything, or the next line, was read as text, or could not, since it is none; what is left then is unspecified
Text(data, line, b) ==
  /\ ~inErr
  /\ b = (IF line THEN UpToLf(data) ELSE Rest(data)) /\ IsUtf8(b)
  /\ pos' = pos + Len(b) /\ avail' = 0 /\ Over
NoText(data, line) ==
  /\ ~inErr
  /\ ~IsUtf8(IF line THEN UpToLf(data) ELSE Rest(data))
  /\ avail' = 0 /\ UNCHANGED pos /\ Over

\* The operation reported a failure: exactly when the input did.  An interruption may be passed on
\* by operations that read once; others go on reading.  Bytes read until then are returned, none
\* of them beyond a line.
Failed(data, op, b) ==
  /\ inErr \/ (inter /\ op \in {"read", "fill", "vec", "prev"})
  /\ b # <<>> => op \in {"all", "line", "some"}
  /\ IsRestPrefix(data, b)
  /\ op = "line" => \A k \in DOMAIN b : b[k] # 10
  /\ inErr' = FALSE /\ inter' = FALSE /\ avail' = 0
  /\ pos' = pos + Len(b)

-----------------------------------------------------------------------------
(* Previews *)

NoCr(line) == IF line # <<>> /\ line[Len(line)] = 13 THEN SubSeq(line, 1, Len(line) - 1) ELSE line

\* pieces of b that end in a line feed (without it), and what is left behind the last one
LfPos(b) == SetToSortSeq({j \in DOMAIN b : b[j] = 10}, <)
Terminated(b) == LET p == LfPos(b)
                 IN [k \in DOMAIN p |-> SubSeq(b, (IF k = 1 THEN 1 ELSE p[k - 1] + 1), p[k] - 1)]
Leftover(b) == LET p == LfPos(b)
               IN IF p = <<>> THEN b ELSE SubSeq(b, p[Len(p)] + 1, Len(b))

\* the preview of data with a buffer of cap bytes: bytes, whether there are lines, and
\* the possible lines (the end of the input is not a line terminator, so that a CR there
\* may be kept)
Preview(data, cap) ==
  LET b == SubSeq(data, 1, Lesser(cap, Len(data)))
      full == Len(data) >= cap
      term == Terminated(b)
      left == Leftover(b)
      counted == ~full /\ left # <<>>
      ls == [k \in DOMAIN term |-> NoCr(term[k])]
      all == IF counted THEN Append(ls, left) ELSE ls
      alt == IF counted THEN Append(ls, NoCr(left)) ELSE ls
  IN [ buf |-> b,
       text |-> \A k \in DOMAIN all : IsUtf8(all[k]),
       lines |-> {all, alt} ]
=============================================================================

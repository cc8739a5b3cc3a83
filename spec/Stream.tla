------------------------------- MODULE Stream ---------------------------------
(* How much of an input may have been read for the rows that have come out of it, *)
(* how many rows have to have come out of what has been sent, and how much memory *)
(* all of it may take.                                                            *)
(* An input is a header and equally long rows without an end.  It is packed in    *)
(* units: `pre` bytes hold the header, and `skip` rows that do not count, then     *)
(* every `unit` bytes hold `m` rows.                                              *)
EXTENDS Integers, Sequences
CONSTANTS RawAhead,    \* bytes that may wait in buffers in front of the unpacking
          DecAhead,    \* bytes that may wait in buffers behind it
          OutAhead,    \* bytes that may wait in buffers in front of an output
          RowsAhead,   \* rows that may wait
          HeapRoom,    \* bytes held for every input
          HeapDrift    \* bytes by which this may change while rows go by
\* length of the contents up to row n
Past(x, n) == IF n > x.skip THEN n - x.skip ELSE 0
Dec(x, n) == x.hdr + Past(x, n) * x.len
Units(x, d) == IF d <= x.hdr THEN 0 ELSE (d - x.hdr + x.m * x.len - 1) \div (x.m * x.len)
\* length of the input that holds d bytes of the contents
Raw(x, d) == x.pre + Units(x, d) * x.unit
\* the most that may be read for n rows
May(x, n) == Raw(x, Dec(x, n + RowsAhead) + DecAhead) + RawAhead
\* the least: whole units
Must(x, n) == IF Past(x, n) < x.m THEN 0 ELSE x.pre + (Past(x, n) \div x.m - 1) * x.unit
\* with `sent` bytes there, and no more, a reader has to be beyond row n
Due(x, sent, n) == May(x, n) <= sent

VARIABLES low, high, rows
vars == <<low, high, rows>>
Start(k) == low = 0 /\ high = 0 /\ rows = [i \in 1..k |-> 0]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* a look at everything while rows go by: counts of rows and bytes read, memory, length of output
\* settled: buffers have their final sizes
Count(xs, c, taken) ==
  /\ \A i \in DOMAIN xs : c[i] >= rows[i] /\ Must(xs[i], c[i]) <= taken[i] /\ taken[i] <= May(xs[i], c[i])
  /\ rows' = c
Look(xs, c, taken, heap, settled) ==
  /\ Count(xs, c, taken)
  /\ heap <= HeapRoom * Len(xs)
  /\ IF settled THEN low' = (IF high = 0 THEN heap ELSE Min(low, heap)) /\ high' = Max(high, heap) ELSE UNCHANGED <<low, high>>
  /\ high' - low' <= HeapDrift
\* rows of `out` bytes each that have gone to an output of this length
Written(n, out, length) == n * out - OutAhead <= length
===============================================================================

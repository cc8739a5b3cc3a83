-------------------------------- MODULE Utf8 --------------------------------
(* Well-formed UTF-8 (Unicode table 3-7). *)
EXTENDS Integers, Sequences
Cont(b) == b \in 128..191
\* length of the sequence that starts with byte b, 0 if none does
SeqLen(b) == IF b < 128 THEN 1 ELSE IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 0
Second(b) == CASE b = 224 -> 160..191 [] b = 237 -> 128..159 [] b = 240 -> 144..191 [] b = 244 -> 128..143 [] OTHER -> 128..191

GoodAt(s, i) ==
  IF Cont(s[i])
  THEN \* belongs to a sequence before it
       \E k \in 1..3 : /\ i > k
                       /\ SeqLen(s[i - k]) > k
                       /\ \A j \in (i - k + 1)..i : Cont(s[j])
  ELSE LET n == SeqLen(s[i]) IN
       /\ n > 0 /\ i + n - 1 <= Len(s)
       /\ n > 1 => s[i + 1] \in Second(s[i])
       /\ \A j \in (i + 1)..(i + n - 1) : Cont(s[j])

\* of a character
Encoded(c) == IF c < 128 THEN <<c>>
              ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
              ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

IsUtf8(s) == \A i \in DOMAIN s : IF s[i] < 128 THEN TRUE ELSE GoodAt(s, i)
=============================================================================

------------------------------- MODULE Digits --------------------------------
(* Natural numbers of any size as sequences of decimal digits without leading zeros. *)
EXTENDS Integers, Sequences, FiniteSets

IsDigit(c) == c \in 48..57
RECURSIVE Strip0(_)
Strip0(d) == IF Len(d) > 1 /\ d[1] = 0 THEN Strip0(Tail(d)) ELSE d
\* digits of a text of digit characters (at least one)
OfText(t) == Strip0([i \in DOMAIN t |-> t[i] - 48])
AllDigits(t) == \A i \in DOMAIN t : IsDigit(t[i])

Zeros(n) == [i \in 1..n |-> 0]
\* times 10^n
Scale(d, n) == IF d = <<0>> THEN d ELSE d \o Zeros(n)
\* divided by 10^n, rounded down
ScaleDown(d, n) == IF Len(d) <= n THEN <<0>> ELSE SubSeq(d, 1, Len(d) - n)

RECURSIVE LexLt(_, _)
LexLt(a, b) == IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLt(Tail(a), Tail(b))
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLt(a, b)
Le(a, b) == ~Lt(b, a)

MaxU64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
MaxI64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinI64Abs == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>

\* small numbers
RECURSIVE Num(_)
Num(d) == IF d = <<>> THEN 0 ELSE Num(SubSeq(d, 1, Len(d) - 1)) * 10 + d[Len(d)]
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)

TextOf(d) == [i \in DOMAIN d |-> d[i] + 48]
\* n with at least w digits
Padded(n, w) == LET d == DigitsOf(n) IN TextOf(IF Len(d) >= w THEN d ELSE Zeros(w - Len(d)) \o d)
\* division by a small number k (below 10^8): <<quotient, remainder>>
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(d, k, i, q, r) == IF i > Len(d) THEN <<Strip0(q), r>>
                          ELSE LET x == r * 10 + d[i] IN DivFrom(d, k, i + 1, Append(q, x \div k), x % k)
DivMod(d, k) == DivFrom(d, k, 1, <<>>, 0)

\* positive decimal numbers d * 10^e
RECURSIVE DropZeros(_)
DropZeros(d) == IF d # <<>> THEN (IF d[1] = 0 THEN DropZeros(Tail(d)) ELSE d) ELSE d
PadTo(d, n) == IF Len(d) < n THEN d \o Zeros(n - Len(d)) ELSE d
\* leading zeros have been dropped
DecLt(a, b) == IF Len(a.d) + a.e # Len(b.d) + b.e THEN Len(a.d) + a.e < Len(b.d) + b.e
               ELSE LET n == IF Len(a.d) > Len(b.d) THEN Len(a.d) ELSE Len(b.d) IN LexLt(PadTo(a.d, n), PadTo(b.d, n))

=============================================================================

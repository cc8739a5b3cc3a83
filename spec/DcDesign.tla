------------------------------ MODULE DcDesign -------------------------------
(***************************************************************************)
(* The layout itself: whatever is written is read back unchanged, and every *)
(* cut of the file anywhere but between two rows is noticed.  A writer      *)
(* appends rows; a reader reads a file that was cut at any byte, or whose   *)
(* input fails there.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxCols, MaxRows
VARIABLES st, at, types, h, rows, cut, broken, got
F == INSTANCE DcFormat WITH MaxShort <- 2
vars == <<st, at, types, h, rows, cut, broken, got>>
EndMark == [ts |-> <<>>, v |-> <<"end">>]
ErrMark == [ts |-> <<>>, v |-> <<"error">>]
Tags == {"B", "S", "T"}
Vals == [B |-> {<<0>>, <<255>>}, S |-> {<<128, 7>>}, T |-> {<<>>, <<97>>, <<97, 195, 169>>}]
Values(x) == {F!Null} \cup {<<x, b>> : b \in Vals[x]}
Names == <<<<97>>, <<>>, <<195, 169>>>>
\* wide tables with few patterns, to cross the bytes of the null set
Wide == {7, 8, 9, 16, 17}
WideRows(n) == {[k \in 1..n |-> F!Null], [k \in 1..n |-> <<"B", <<k>>>>], [k \in 1..n |-> IF k % 3 = 0 THEN F!Null ELSE <<"B", <<k>>>>],
                [k \in 1..n |-> IF k \in {1, 8, 9, 17} THEN F!Null ELSE <<"B", <<k>>>>]}
Rows(hd) == IF Len(hd.t) \in Wide THEN WideRows(Len(hd.t))
            ELSE IF hd.t = <<>> THEN {<<>>}
            ELSE {v \in [DOMAIN hd.t -> UNION {Values(x) : x \in Tags}] : \A k \in DOMAIN v : v[k] \in Values(hd.t[k])}
Ts == {<<0, 0, 0, 0, 0, 0, 0, 0>>, <<255, 1, 0, 0, 0, 0, 0, 2>>}
Headers == {[n |-> SubSeq(Names, 1, Len(t)), t |-> t] : t \in UNION {[1..k -> Tags] : k \in 0..MaxCols}}
           \cup {[n |-> [k \in 1..w |-> <<97>>], t |-> [k \in 1..w |-> "B"]] : w \in Wide}
File == F!Encode(h, rows)
Visible == SubSeq(File, 1, cut)
Init == /\ h \in Headers /\ rows = <<>> /\ cut = -1 /\ broken \in BOOLEAN /\ got = <<>> /\ F!Init
Write == /\ cut = -1 /\ Len(rows) < MaxRows
         /\ \E v \in Rows(h), ts \in Ts : rows' = Append(rows, [ts |-> ts, v |-> v])
         /\ UNCHANGED <<st, at, types, h, cut, broken, got>>
Cut == /\ cut = -1 /\ \E k \in 0..Len(File) : cut' = k
       /\ UNCHANGED <<st, at, types, h, rows, broken, got>>
\* the reader's next answer is the one it is allowed to give
ReadH == /\ cut >= 0 /\ st = "start"
         /\ LET x == F!ReadHeader(Visible) IN IF x.ok THEN F!Header(Visible, [n |-> F!Named(x.n), t |-> x.t]) ELSE F!Err(Visible, broken)
         /\ UNCHANGED <<h, rows, cut, broken, got>>
ReadR == /\ cut >= 0 /\ st = "rows" /\ at < cut
         /\ LET x == F!ReadRow(Visible, at, types) IN
            IF x.ok THEN F!Row(Visible, x.row) /\ got' = Append(got, x.row) /\ UNCHANGED <<h, rows, cut, broken>>
            ELSE F!Err(Visible, broken) /\ got' = Append(got, ErrMark) /\ UNCHANGED <<h, rows, cut, broken>>
ReadE == /\ cut >= 0 /\ st = "rows" /\ at = cut
         /\ IF broken THEN F!Err(Visible, broken) /\ got' = Append(got, ErrMark) ELSE F!Eof(Visible, broken) /\ got' = Append(got, EndMark)
         /\ UNCHANGED <<h, rows, cut, broken>>
Next == Write \/ Cut \/ ReadH \/ ReadR \/ ReadE
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Boundary(k) == Len(F!Encode(h, SubSeq(rows, 1, k)))
Read == IF got # <<>> /\ got[Len(got)] \in {EndMark, ErrMark} THEN SubSeq(got, 1, Len(got) - 1) ELSE got
RoundTrip == /\ Len(Read) <= Len(rows)
             /\ \A k \in DOMAIN Read : Read[k] = rows[k]
Over == st = "over" /\ cut >= 0
\* the end is reported exactly behind a row (or the header) of an intact input
EndOk == Over => ((got # <<>> /\ got[Len(got)] = EndMark) <=> (~broken /\ \E k \in 0..Len(rows) : cut = Boundary(k)))
\* and then all rows before it were read
Complete == Over => IF cut < Boundary(0) THEN got = <<>>
                    ELSE Len(Read) = Cardinality({k \in DOMAIN rows : Boundary(k) <= cut})
=============================================================================

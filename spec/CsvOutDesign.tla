----------------------------- MODULE CsvOutDesign -----------------------------
(***************************************************************************)
(* Written csv text reads back as the same records (white space around        *)
(* values aside, which reading trims), for every table of short texts; and      *)
(* times are written as they are read.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxLen, Cols
VARIABLES rows, delim, st, taken
C == INSTANCE CsvOut
T == INSTANCE CsvText
Alphabet == {97, 32, 10, 13, 34, 44, 59}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Delims == {44, 59, 32}
Cfg == [delim |-> <<delim>>, print |-> FALSE, name |-> <<>>, style |-> "epoch", unit |-> "ns", zone |-> "none"]
Row(x) == [ts |-> <<0>>, v |-> [i \in DOMAIN x |-> [k |-> "T", t |-> x[i]]]]
Init == rows \in [1..Cols -> Texts] /\ delim \in Delims /\ st = "start" /\ taken = 0
Next == FALSE /\ UNCHANGED <<rows, delim, st, taken>>
Spec == Init /\ [][Next]_<<rows, delim, st, taken>>
Line(items) == FoldLeft(LAMBDA s, c : s \o c[2], <<>>, C!Flat(Cfg, items))
Text == Line(C!HeadLine(Cfg, rows)) \o Line(C!RowLine(Cfg, Row(rows))) \o Line(C!RowLine(Cfg, Row(rows)))
Want == [i \in 1..Cols |-> T!Trim(rows[i])]
\* a line without any text is no record
RoundTrip == (Cols > 1 \/ \E i \in 1..Cols : rows[i] # <<>>) => T!Records(Text, delim) = <<Want, Want, Want>>
Matches == C!IsFile(Text, Cfg, rows, <<Row(rows), Row(rows)>>)
=============================================================================

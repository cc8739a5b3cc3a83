------------------------------ MODULE CsvDesign ------------------------------
(***************************************************************************)
(* The record rules of CsvText: whatever is written by the usual rules of   *)
(* csv, with any end of line, is read back, and the rows of CsvIn come out  *)
(* complete, in order, and end where the text ends.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxRecs, MaxFields, MaxLen
VARIABLES recs, style, st, done
C == INSTANCE CsvIn
vars == <<recs, style, st, done>>
A == 97
D == 44
Alphabet == {A, D, C!QUOTE, C!LF, C!CR, 32}
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Eols == {<<C!LF>>, <<C!CR>>, <<C!CR, C!LF>>}
Styles == [eol : Eols, last : BOOLEAN, quoteAll : BOOLEAN, blank : BOOLEAN]

Flat(s) == FlattenSeq(s)
Quoted(f) == <<C!QUOTE>> \o Flat([i \in DOMAIN f |-> IF f[i] = C!QUOTE THEN <<C!QUOTE, C!QUOTE>> ELSE <<f[i]>>]) \o <<C!QUOTE>>
Needs(f) == \E i \in DOMAIN f : f[i] \in {D, C!QUOTE, C!LF, C!CR}
Field(f, alone) == IF style.quoteAll \/ Needs(f) \/ (alone /\ f = <<>>) THEN Quoted(f) ELSE f
Line(r) == Flat([j \in DOMAIN r |-> IF j = 1 THEN Field(r[j], Len(r) = 1) ELSE <<D>> \o Field(r[j], FALSE)])
Text == LET eol == IF style.blank THEN style.eol \o style.eol ELSE style.eol
        IN (IF style.blank THEN style.eol ELSE <<>>)
           \o Flat([k \in DOMAIN recs |-> IF k < Len(recs) \/ style.last THEN Line(recs[k]) \o eol ELSE Line(recs[k])])
Trimmed == [k \in DOMAIN recs |-> [j \in DOMAIN recs[k] |-> C!Trim(recs[k][j])]]

\* rows with a time in front, read as a csv input
Sc == [text |-> Flat([k \in DOMAIN recs |-> <<53, D>> \o Line(recs[k]) \o style.eol]), delim |-> D, header |-> "no",
       col |-> <<"index", 0>>, fmt |-> <<"epoch", "s">>, zone |-> "none"]
X == C!Expect(Sc)

Init == recs = <<>> /\ style \in Styles /\ C!Init
Write == /\ st = "start" /\ Len(recs) < MaxRecs
         /\ \E n \in 1..MaxFields : \E r \in [1..n -> Texts] : recs' = Append(recs, r)
         /\ UNCHANGED <<style, st, done>>
ReadH == C!Header(X, X.names) /\ UNCHANGED <<recs, style>>
Values(k) == [i \in DOMAIN X.names |-> IF i = 1 THEN <<"T", <<53>>>> ELSE IF i - 1 <= Len(Trimmed[k]) THEN <<"T", Trimmed[k][i - 1]>> ELSE <<"N", <<>>>>]
ReadR == /\ done < Len(recs)
         /\ C!Row(X, <<5, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 5, 0>>, Values(done + 1)) /\ UNCHANGED <<recs, style>>
ReadE == (C!Eof(X) \/ C!Err(X)) /\ UNCHANGED <<recs, style>>
Next == Write \/ ReadH \/ ReadR \/ ReadE
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
RoundTrip == C!Records(Text, D) = Trimmed
\* the input goes wrong exactly when a row is longer than the first, and all rows before come out
Longer == {k \in DOMAIN recs : Len(recs[k]) > Len(recs[1])}
Complete == st = "over" => IF Longer = {} THEN done = Len(recs)
                           ELSE \A k \in Longer : done < k
Ends == st = "over" /\ Longer # {} => \E k \in Longer : (\A j \in Longer : k <= j) /\ done \in {k - 1, k - 2}
=============================================================================

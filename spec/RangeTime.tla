------------------------------ MODULE RangeTime ------------------------------
(***************************************************************************)
(* Begin and end times: the instants a text denotes (one, or none if it is  *)
(* an error), as <<"digits", nanoseconds>> or <<"instant", ...>>.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Time

UnitZeros == [s |-> 9, ms |-> 6, us |-> 3, ns |-> 0]
InUnit(n, u) == /\ ~Lt(n, Scale(<<6, 3, 0, 0, 0, 0, 0, 0, 0>>, 9 - UnitZeros[u]))
                /\ Lt(n, Scale(<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, 9 - UnitZeros[u]))

YY == <<37, 89>>
MM == <<37, 109>>
DD == <<37, 100>>
Dates == {YY \o MM \o DD, YY \o <<47>> \o MM \o <<47>> \o DD, YY \o <<45>> \o MM \o <<45>> \o DD}
Between == {32, 45, 84}
Times == {<<37, 72, 37, 77, 37, 83>>, <<37, 72, 58, 37, 77, 58, 37, 83>>}
Fractions == {<<>>, <<37, 46, 102>>}
Local == {Items(d \o <<b>> \o t \o f) : d \in Dates, b \in Between, t \in Times, f \in Fractions}

Pad == <<48, 49>>                                        \* 01
Midnight == <<45, 48, 48, 58, 48, 48, 58, 48, 48>>       \* -00:00:00
Completed(s) == CASE Len(s) = 4 -> s \o Pad \o Pad \o Midnight
                  [] Len(s) = 6 -> s \o Pad \o Midnight
                  [] Len(s) = 8 -> s \o Midnight
                  [] OTHER -> s

Under(formats, s, ways, zone) ==
  UNION {LET u == Understand(f, s) IN IF u.ok THEN (IF u.has \in ways THEN {[i |-> Instants(u, zone)]} ELSE {}) ELSE {} : f \in formats}

\* meaning, where iso says what is accepted as ISO 8601
MeaningBy(iso, s, zone) ==
  LET number == s # <<>> /\ AllDigits(s)
      n == OfText(s)
      units == IF number THEN {u \in DOMAIN UnitZeros : Le(n, MaxU64) /\ InUnit(n, u)} ELSE {}
      text == IF number THEN Completed(s) ELSE s
      own == Under(iso, text, {"offset"}, "none")
      loc == Under(Local, text, {"time"}, zone)
  IN IF units # {} THEN {<<"digits", Scale(n, UnitZeros[u])>> : u \in units}
     ELSE {<<"instant", i>> : i \in UNION {x.i : x \in IF own # {} THEN own ELSE loc}}

\* what has to be accepted, and what may be
Meaning(s, zone) == MeaningBy({Rfc3339}, s, zone)
MayMean(s, zone) == LET m == Meaning(s, zone) IN IF m # {} THEN m ELSE MeaningBy({Loose3339}, s, zone)

-----------------------------------------------------------------------------
VARIABLE answered
Init == answered = FALSE
Time(s, zone, digits, instant) ==
  /\ ~answered /\ answered' = TRUE
  /\ LET m == MayMean(s, zone) IN
     /\ Cardinality(m) = 1
     /\ \A x \in m : x[2] = IF x[1] = "digits" THEN digits ELSE instant
Refuse(s, zone) == ~answered /\ answered' = TRUE /\ Meaning(s, zone) = {}
=============================================================================

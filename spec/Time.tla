-------------------------------- MODULE Time ---------------------------------
(***************************************************************************)
(* Calendar, time zones, and reading of dates and times from text.          *)
(* An instant is <<days since 1970, second of the day, nanosecond>>.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Digits

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31

\* days since 1970-01-01
DayNo(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468

\* <<year, month, day>> of a day number
Civil(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>

Weekday(n) == (n + 4) % 7      \* 0 is Sunday
NthSunday(y, m, k) == LET f == DayNo(y, m, 1) IN f + ((7 - Weekday(f)) % 7) + 7 * (k - 1)
LastSunday(y, m) == LET e == DayNo(y, m, DaysIn(y, m)) IN e - Weekday(e)

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
\* <<day, second>> moved by k seconds, |k| below two days
Move(x, k) == LET s == x[2] + k IN <<x[1] + s \div 86400, s % 86400>>

-----------------------------------------------------------------------------
(* Zones: standard offset, summer offset and its first and last instant in a year (UTC). *)
Fixed == [UTC |-> 0, Tokyo |-> 32400, Kolkata |-> 19800, GMTp5 |-> -18000]
Summer == {"NewYork", "London", "Sydney", "LordHowe", "Berlin", "Azores", "Beirut"}
Std == [NewYork |-> -18000, London |-> 0, Sydney |-> 36000, LordHowe |-> 37800, Berlin |-> 3600, Azores |-> -3600, Beirut |-> 7200]
Dst == [NewYork |-> -14400, London |-> 3600, Sydney |-> 39600, LordHowe |-> 39600, Berlin |-> 7200, Azores |-> 0, Beirut |-> 10800]
Starts(z, y) == CASE z = "NewYork" -> <<NthSunday(y, 3, 2), 25200>>
                  [] z \in {"London", "Berlin", "Azores"} -> <<LastSunday(y, 3), 3600>>
                  [] z = "Beirut" -> <<LastSunday(y, 3) - 1, 79200>>
                  [] z = "Sydney" -> <<NthSunday(y, 10, 1) - 1, 57600>>
                  [] z = "LordHowe" -> <<NthSunday(y, 10, 1) - 1, 55800>>
Ends(z, y) == CASE z = "NewYork" -> <<NthSunday(y, 11, 1), 21600>>
                [] z \in {"London", "Berlin", "Azores"} -> <<LastSunday(y, 10), 3600>>
                [] z = "Beirut" -> <<LastSunday(y, 10) - 1, 75600>>
                [] z = "Sydney" -> <<NthSunday(y, 4, 1) - 1, 57600>>
                [] z = "LordHowe" -> <<NthSunday(y, 4, 1) - 1, 54000>>

\* offset of zone z at UTC <<day, second>>
Offset(z, x) ==
  IF z \in DOMAIN Fixed THEN Fixed[z]
  ELSE LET y == Civil(x[1])[1]
           a == Starts(z, y)
           b == Ends(z, y)
           in == IF Before(a, b) THEN ~Before(x, a) /\ Before(x, b) ELSE ~Before(x, a) \/ Before(x, b)
       IN IF in THEN Dst[z] ELSE Std[z]

Offsets(z) == IF z \in DOMAIN Fixed THEN {Fixed[z]} ELSE {Std[z], Dst[z]}

\* the UTC times that local time x is in zone z: none in a gap, two in a fold
ToUtc(z, x) == {u \in {Move(x, -o) : o \in Offsets(z)} : Move(u, Offset(z, u)) = x}

\* what fits 64 bits of nanoseconds
MaxInstant == <<213503, 84873, 709551615>>
InRange(i) == i[1] >= 0 /\ (i[1] < MaxInstant[1] \/ (i[1] = MaxInstant[1] /\
                 (i[2] < MaxInstant[2] \/ (i[2] = MaxInstant[2] /\ i[3] <= MaxInstant[3]))))

-----------------------------------------------------------------------------
(* Formats.  A format is a text with % directives; it becomes a list of     *)
(* items <<kind, min, max>>: numbers of min to max digits, "lit" with the   *)
(* character, and so on.                                                    *)
Unset == -1
Nothing == [Y |-> Unset, m |-> Unset, d |-> Unset, H |-> Unset, M |-> Unset, S |-> Unset, n |-> Unset, z |-> Unset]
NoZ == 1000000

Lit(c) == <<"lit", c, c>>
Num2(k) == <<k, 1, 2>>
Rfc3339 == <<<<"Y", 4, 4>>, Lit(45), <<"m", 2, 2>>, Lit(45), <<"d", 2, 2>>, Lit(84), <<"H", 2, 2>>, Lit(58),
             <<"M", 2, 2>>, Lit(58), <<"S", 2, 2>>, <<"frac", 0, 9>>, <<"off", 1, 1>>>>
\* other spellings of it that are commonly understood
Sp == <<"sp", 0, 0>>
Loose3339 == <<<<"Y", 1, 4>>, Sp, Lit(45), Num2("m"), Sp, Lit(45), Num2("d"), <<"T", 0, 0>>, Num2("H"), Sp, Lit(58),
             Num2("M"), Sp, Lit(58), Num2("S"), <<"frac", 0, 9>>, Sp, <<"off", 2, 1>>>>

\* directives by their text behind the percent sign
Directive(t) ==
  CASE t = <<89>> -> << <<"Y", 1, 4>> >>                                           \* %Y
    [] t = <<109>> -> <<Num2("m")>>                                                \* %m
    [] t = <<100>> -> <<Num2("d")>>                                                \* %d
    [] t = <<72>> -> <<Num2("H")>>                                                 \* %H
    [] t = <<45, 72>> -> <<Num2("H")>>                                             \* %-H
    [] t = <<77>> -> <<Num2("M")>>                                                 \* %M
    [] t = <<83>> -> <<Num2("S")>>                                                 \* %S
    [] t = <<51, 102>> -> << <<"fix", 3, 3>> >>                                    \* %3f
    [] t = <<54, 102>> -> << <<"fix", 6, 6>> >>                                    \* %6f
    [] t = <<57, 102>> -> << <<"fix", 9, 9>> >>                                    \* %9f
    [] t = <<46, 102>> -> << <<"frac", 0, 9>> >>                                   \* %.f
    [] t = <<122>> -> << <<"off", 0, 0>> >>                                        \* %z
    [] t = <<58, 122>> -> << <<"off", 0, 1>> >>                                    \* %:z
    [] t = <<84>> -> <<Num2("H"), Lit(58), Num2("M"), Lit(58), Num2("S")>>         \* %T
    [] t = <<70>> -> << <<"Y", 1, 4>>, Lit(45), Num2("m"), Lit(45), Num2("d")>>    \* %F
    [] t = <<43>> -> Loose3339                                                      \* %+
    [] t = <<98>> -> << <<"mon", 3, 3>> >>                                         \* %b
    [] t = <<37>> -> <<Lit(37)>>                                                   \* %%

DirectiveLen(f, p) == IF f[p] \in {45, 46, 51, 54, 57, 58} THEN 2 ELSE 1
RECURSIVE ItemsFrom(_, _)
ItemsFrom(f, p) ==
  IF p > Len(f) THEN <<>>
  ELSE IF f[p] = 32 THEN << <<"sp", 0, 0>> >> \o ItemsFrom(f, p + 1)
  ELSE IF f[p] # 37 THEN <<Lit(f[p])>> \o ItemsFrom(f, p + 1)
  ELSE LET n == DirectiveLen(f, p + 1) IN Directive(SubSeq(f, p + 1, p + n)) \o ItemsFrom(f, p + n + 1)
Items(f) == ItemsFrom(f, 1)

\* number of digits from position p on, at most w
RECURSIVE Run(_, _, _)
Run(t, p, w) == IF w > 0 /\ p <= Len(t) THEN (IF IsDigit(t[p]) THEN 1 + Run(t, p + 1, w - 1) ELSE 0) ELSE 0
Value(t, p, k) == Num([i \in 1..k |-> t[p + i - 1] - 48])

Fail == [ok |-> FALSE]
Months == <<<<74,97,110>>, <<70,101,98>>, <<77,97,114>>, <<65,112,114>>, <<77,97,121>>, <<74,117,110>>,
            <<74,117,108>>, <<65,117,103>>, <<83,101,112>>, <<79,99,116>>, <<78,111,118>>, <<68,101,99>>>>
Pow10 == <<10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000>>
Nanos(t, p, k) == IF k = 9 THEN Value(t, p, 9) ELSE Value(t, p, k) * Pow10[9 - k]

At(t, p) == IF p <= Len(t) THEN t[p] ELSE 0

White == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
RECURSIVE Blank(_, _)
Blank(t, p) == IF At(t, p) \in White THEN 1 + Blank(t, p + 1) ELSE 0
RECURSIVE Colons(_, _)
Colons(t, p) == IF At(t, p) = 58 \/ At(t, p) \in White THEN 1 + Colons(t, p + 1) ELSE 0
Small(c) == IF c \in 65..90 THEN c + 32 ELSE c
SmallText(s) == [i \in DOMAIN s |-> Small(s[i])]
\* letters in either case
Reads(t, p, s) == p + Len(s) - 1 <= Len(t) /\ SmallText(SubSeq(t, p, p + Len(s) - 1)) = SmallText(s)

RECURSIVE MatchFrom(_, _, _, _, _)
MatchFrom(its, j, t, p, f) ==
  IF j > Len(its) THEN (IF p = Len(t) + 1 THEN [ok |-> TRUE, f |-> f] ELSE Fail)
  ELSE LET it == its[j]
           k == it[1]
       IN CASE k = "sp" -> MatchFrom(its, j + 1, t, p + Blank(t, p), f)     \* any white space, also none
            [] k = "T" -> IF At(t, p) \in {32, 84, 116} THEN MatchFrom(its, j + 1, t, p + 1, f) ELSE Fail
            [] k = "lit" -> IF At(t, p) = it[2] THEN MatchFrom(its, j + 1, t, p + 1, f) ELSE Fail
            [] k \in {"Y", "m", "d", "H", "M", "S"} ->
                 \* a number may have blanks in front of it, and a year a sign
                 LET q0 == IF it[2] = it[3] THEN p ELSE p + Blank(t, p)
                     plus == k = "Y" /\ it[2] < it[3] /\ At(t, q0) = 43
                     q == IF plus THEN q0 + 1 ELSE q0
                     r == Run(t, q, IF plus THEN 1000 ELSE it[3])
                 IN IF r < it[2] \/ r > 8 THEN Fail ELSE MatchFrom(its, j + 1, t, q + r, [f EXCEPT ![k] = Value(t, q, r)])
            [] k = "fix" ->
                 LET r == Run(t, p, it[3]) IN
                 IF r < it[2] THEN Fail ELSE MatchFrom(its, j + 1, t, p + r, [f EXCEPT !.n = Nanos(t, p, r)])
            [] k = "frac" ->
                 IF At(t, p) # 46 THEN MatchFrom(its, j + 1, t, p, f)
                 ELSE LET r == Run(t, p + 1, 9)
                          all == Run(t, p + 1, 1000)
                      IN IF r = 0 THEN Fail ELSE MatchFrom(its, j + 1, t, p + 1 + all, [f EXCEPT !.n = Nanos(t, p + 1, r)])
            [] k = "mon" ->
                 LET x == {i \in 1..12 : Reads(t, p, Months[i])} IN
                 IF x = {} THEN Fail ELSE MatchFrom(its, j + 1, t, p + 3, [f EXCEPT !.m = CHOOSE i \in x : TRUE])
            [] k = "off" ->
                 \* 1: strict, 2: also other names of UTC, 0: a number
                 LET o == IF it[2] = 1 THEN p ELSE p + Blank(t, p)
                     q == IF it[2] = 1 THEN (IF At(t, o + 3) = 58 THEN o + 4 ELSE o + 3) ELSE o + 3 + Colons(t, o + 3)
                     zulu == IF it[2] = 0 THEN 0 ELSE IF it[2] = 2 /\ Reads(t, o, <<85, 84, 67>>) THEN 3
                             ELSE IF At(t, o) = 90 \/ (it[2] = 2 /\ At(t, o) = 122) THEN 1 ELSE 0
                 IN IF zulu > 0 THEN MatchFrom(its, j + 1, t, o + zulu, [f EXCEPT !.z = 0])
                    ELSE IF At(t, o) \notin (IF it[2] = 1 THEN {43, 45} ELSE {43, 45, 8722}) \/ Run(t, o + 1, 2) < 2 \/ Run(t, q, 2) < 2 \/ Value(t, q, 2) > 59 THEN Fail
                    ELSE LET v == Value(t, o + 1, 2) * 3600 + Value(t, q, 2) * 60 IN
                         MatchFrom(its, j + 1, t, q + 2, [f EXCEPT !.z = IF t[o] = 43 THEN v ELSE -v])

GoodDate(f) == f.Y # Unset /\ f.Y < 10000 /\ f.m \in 1..12 /\ f.d >= 1 /\ f.d <= DaysIn(f.Y, f.m)
GoodTime(f) == f.H \in 0..23 /\ f.M \in 0..59 /\ f.S \in -1..60
Given(f) == f.H # Unset \/ f.M # Unset \/ f.S # Unset \/ f.n # Unset

\* what text t means under format items: [ok, has (offset, time or date), f]
Understand(its, t) ==
  LET x == MatchFrom(its, 1, t, 1, [Nothing EXCEPT !.z = NoZ]) IN
  IF ~x.ok THEN Fail
  ELSE LET f == x.f IN
       IF ~GoodDate(f) THEN Fail
       ELSE IF ~Given(f) THEN (IF f.z = NoZ THEN [ok |-> TRUE, has |-> "date", f |-> f] ELSE Fail)
       ELSE IF ~GoodTime(f) THEN Fail
       ELSE IF f.z = NoZ THEN [ok |-> TRUE, has |-> "time", f |-> f]
       ELSE IF f.z \in -86399..86399 THEN [ok |-> TRUE, has |-> "offset", f |-> f] ELSE Fail

Z(x) == IF x = Unset THEN 0 ELSE x
LocalOf(f) == <<DayNo(f.Y, f.m, f.d), Z(f.H) * 3600 + Z(f.M) * 60 + (IF Z(f.S) = 60 THEN 59 ELSE Z(f.S))>>
\* the instants that are meant (one, or none if it is an error), zone "none" if no zone is configured
Instants(u, zone) ==
  LET f == u.f
      local == LocalOf(f)
      utcs == IF u.has = "offset" THEN {Move(local, -f.z)}
              ELSE IF zone = "none" THEN {}
              ELSE ToUtc(zone, local)
  IN IF Cardinality(utcs) # 1 THEN {}
     ELSE LET x == CHOOSE x \in utcs : TRUE
              y == IF Z(f.S) = 60 THEN Move(x, 1) ELSE x     \* a leap second is the next second
              i == <<y[1], y[2], Z(f.n)>>
          \* the one at the end of 1969 is before 1970
          IN IF InRange(i) /\ InRange(<<x[1], x[2], 0>>) THEN {i} ELSE {}
=============================================================================

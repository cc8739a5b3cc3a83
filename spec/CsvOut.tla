-------------------------------- MODULE CsvOut --------------------------------
(***************************************************************************)
(* Csv output: one line for the header, one for every row that was taken.    *)
(* A configuration cfg: delim (text), print (the time is the first column),   *)
(* name (<<>> or <<text>>), style ("epoch" or "human"), unit, zone.            *)
(* Values: [k |-> kind] and, for whole numbers, neg and the digits d; for text  *)
(* t; for floating point what ("nan", "inf", "zero" or "num"), neg, and the      *)
(* decimals lo and hi between which every decimal means this very number          *)
(* (both included if even).                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Time

VARIABLES st, taken     \* "start", "open", "failed", "flushed"; number of rows taken so far
Init == st = "start" /\ taken = 0

HasText(t, d) == d # <<>> /\ \E i \in 1..(Len(t) - Len(d) + 1) : SubSeq(t, i, i + Len(d) - 1) = d
RECURSIVE Doubled(_)
Doubled(t) == IF t = <<>> THEN <<>> ELSE (IF t[1] = 34 THEN <<34, 34>> ELSE <<t[1]>>) \o Doubled(Tail(t))
\* text that could not be told apart from delimiters and line ends is put in quotes
Quoted(t, delim) == IF (\E i \in DOMAIN t : t[i] \in {10, 13, 34}) \/ HasText(t, delim) THEN <<34>> \o Doubled(t) \o <<34>> ELSE t

Sub9(u) == CASE u = "s" -> 0 [] u = "ms" -> 3 [] u = "us" -> 6 [] u = "ns" -> 9
Suffix(u) == CASE u = "s" -> <<83, 101, 99, 111, 110, 100, 115>>
               [] u = "ms" -> <<77, 105, 108, 108, 105, 115>>
               [] u = "us" -> <<77, 105, 99, 114, 111, 115>>
               [] u = "ns" -> <<78, 97, 110, 111, 115>>
TimeName(cfg) == IF cfg.name # <<>> THEN cfg.name[1]
                 ELSE IF cfg.style = "epoch" THEN <<116, 105, 109, 101, 115, 116, 97, 109, 112>> \o Suffix(cfg.unit)
                 ELSE <<116, 105, 109, 101>>

\* nanoseconds since 1970 (digits) as instant
Instant(d) == LET s == IF Len(d) > 9 THEN SubSeq(d, 1, Len(d) - 9) ELSE <<0>>
                  n == IF Len(d) > 9 THEN SubSeq(d, Len(d) - 8, Len(d)) ELSE d
                  x == DivMod(s, 86400)
              IN <<Num(x[1]), x[2], Num(n)>>
OffsetText(o) == LET a == IF o < 0 THEN -o ELSE o IN
                 <<IF o < 0 THEN 45 ELSE 43>> \o Padded(a \div 3600, 2) \o <<58>> \o Padded((a % 3600) \div 60, 2)
Human(d, unit, zone) ==
  LET i == Instant(d)
      o == Offset(zone, <<i[1], i[2]>>)
      l == Move(<<i[1], i[2]>>, o)
      c == Civil(l[1])
      k == Sub9(unit)
  IN Padded(c[1], 4) \o <<45>> \o Padded(c[2], 2) \o <<45>> \o Padded(c[3], 2) \o <<84>>
     \o Padded(l[2] \div 3600, 2) \o <<58>> \o Padded((l[2] % 3600) \div 60, 2) \o <<58>> \o Padded(l[2] % 60, 2)
     \o (IF k = 0 THEN <<>> ELSE <<46>> \o SubSeq(Padded(i[3], 9), 1, k)) \o OffsetText(o)
TimeText(cfg, d) == IF cfg.style = "epoch" THEN TextOf(ScaleDown(d, 9 - Sub9(cfg.unit))) ELSE Human(d, cfg.unit, cfg.zone)

Writable(v) == v.k \notin {"Z", "U"}
CanTake(cfg, row) == /\ \A i \in DOMAIN row.v : Writable(row.v[i])
                     /\ cfg.print => (cfg.style = "epoch" \/ cfg.zone # "none")

\* the columns of a line: texts, or numbers of which several texts may tell
Column(cfg, v) == CASE v.k = "N" -> <<"text", <<>> >>
                    [] v.k = "T" -> <<"text", Quoted(v.t, cfg.delim)>>
                    [] v.k \in {"B", "C", "S", "I", "J"} -> <<"text", (IF v.neg THEN <<45>> ELSE <<>>) \o TextOf(v.d)>>
                    [] v.k \in {"D", "F"} -> <<"num", v>>
HeadLine(cfg, n) == [i \in 1..(Len(n) + (IF cfg.print THEN 1 ELSE 0)) |->
                       <<"text", Quoted(IF cfg.print THEN (IF i = 1 THEN TimeName(cfg) ELSE n[i - 1]) ELSE n[i], cfg.delim)>>]
RowLine(cfg, row) == LET c == [i \in DOMAIN row.v |-> Column(cfg, row.v[i])] IN
                     IF cfg.print THEN << <<"text", Quoted(TimeText(cfg, row.ts), cfg.delim)>> >> \o c ELSE c

-----------------------------------------------------------------------------
(* Floating point *)
\* digits, point, exponent: [ok, neg, d, e]
Bad == [ok |-> FALSE]
Decimal(t) ==
  LET neg == t # <<>> /\ t[1] = 45
      u == IF neg THEN Tail(t) ELSE t
      ex == {i \in DOMAIN u : u[i] \in {69, 101}}
      m == IF ex = {} THEN u ELSE SubSeq(u, 1, (CHOOSE i \in ex : TRUE) - 1)
      x == IF ex = {} THEN <<48>> ELSE SubSeq(u, (CHOOSE i \in ex : TRUE) + 1, Len(u))
      xn == x # <<>> /\ x[1] = 45
      xd == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
      dots == {i \in DOMAIN m : m[i] = 46}
      p == IF dots = {} THEN Len(m) ELSE CHOOSE i \in dots : TRUE
      int == IF dots = {} THEN m ELSE SubSeq(m, 1, p - 1)
      frac == SubSeq(m, p + 1, Len(m))
  IN IF Cardinality(ex) > 1 \/ Cardinality(dots) > 1 \/ int = <<>> \/ ~AllDigits(int) \/ ~AllDigits(frac)
        \/ (dots # {} /\ frac = <<>>) \/ xd = <<>> \/ ~AllDigits(xd) \/ Len(xd) > 4 THEN Bad
     ELSE LET e == Num([i \in DOMAIN xd |-> xd[i] - 48]) IN
          [ok |-> TRUE, neg |-> neg, d |-> DropZeros([i \in 1..(Len(int) + Len(frac)) |-> (int \o frac)[i] - 48]),
           e |-> (IF xn THEN -e ELSE e) - Len(frac)]
RECURSIVE NoTail(_)
NoTail(d) == IF d # <<>> /\ d[Len(d)] = 0 THEN NoTail(SubSeq(d, 1, Len(d) - 1)) ELSE d
\* this many digits tell every number from all others of its type
Enough(k) == IF k = "F" THEN 9 ELSE 17
NotDigits(t) == [i \in DOMAIN t |-> IF t[i] \in 65..90 THEN t[i] + 32 ELSE t[i]]
Denotes(t, v) ==
  CASE v.what = "nan" -> NotDigits(t) = <<110, 97, 110>>
    [] v.what = "inf" -> NotDigits(t) = (IF v.neg THEN <<45>> ELSE <<>>) \o <<105, 110, 102>>
    [] OTHER -> LET x == Decimal(t) IN
                IF ~x.ok THEN FALSE
                ELSE /\ x.neg = v.neg
                     /\ IF v.what = "zero" THEN x.d = <<>>
                        ELSE /\ x.d # <<>>
                             /\ Len(NoTail(x.d)) <= Enough(v.k)
                             /\ IF v.even THEN ~DecLt(x, v.lo) /\ ~DecLt(v.hi, x) ELSE DecLt(v.lo, x) /\ DecLt(x, v.hi)

-----------------------------------------------------------------------------
(* The text of the file *)
Flat(cfg, line) == FoldLeft(LAMBDA s, c : IF s = <<>> THEN <<c>> ELSE s \o << <<"text", cfg.delim>>, c>>, <<>>, line) \o << <<"text", <<10>> >> >>
RECURSIVE Stop(_, _, _)
Stop(t, p, delim) == IF p > Len(t) THEN p
                     ELSE IF t[p] = 10 \/ (delim # <<>> /\ SubSeq(t, p, p + Len(delim) - 1) = delim) THEN p
                     ELSE Stop(t, p + 1, delim)
\* position behind the item, 0 if it is not there
After(t, p, it, delim) ==
  IF p = 0 THEN 0
  ELSE IF it[1] = "text" THEN (IF p + Len(it[2]) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(it[2]) - 1) = it[2] THEN p + Len(it[2]) ELSE 0)
  ELSE LET q == Stop(t, p, delim) IN IF Denotes(SubSeq(t, p, q - 1), it[2]) THEN q ELSE 0
AfterLine(t, p, cfg, line) == FoldLeft(LAMBDA q, it : After(t, q, it, cfg.delim), p, Flat(cfg, line))
IsFile(t, cfg, names, rows) ==
  FoldLeft(LAMBDA q, row : IF q = 0 THEN 0 ELSE AfterLine(t, q, cfg, RowLine(cfg, row)), AfterLine(t, 1, cfg, HeadLine(cfg, names)), rows) = Len(t) + 1

-----------------------------------------------------------------------------
Open == st = "start" /\ st' = "open" /\ UNCHANGED taken
Take(sc, i) == /\ st = "open" /\ i = taken + 1 /\ i <= Len(sc.rows)
               /\ CanTake(sc.cfg, sc.rows[i])
               /\ taken' = i /\ st' = st
Refuse(sc, i) == /\ st = "open" /\ i = taken + 1 /\ i <= Len(sc.rows)
                 /\ ~CanTake(sc.cfg, sc.rows[i])
                 /\ st' = "failed" /\ UNCHANGED taken
Flush(sc) == /\ st = "open" /\ taken = Len(sc.rows) /\ st' = "flushed" /\ UNCHANGED taken
File(sc, t) == /\ st \in {"flushed", "failed"}
               /\ st = "flushed" => IsFile(t, sc.cfg, sc.names, sc.rows)
               /\ st' = "over" /\ UNCHANGED taken
=============================================================================

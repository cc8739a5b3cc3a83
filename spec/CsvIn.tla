-------------------------------- MODULE CsvIn --------------------------------
(***************************************************************************)
(* A csv input: its header, its rows and their times.                       *)
(*                                                                          *)
(* Scenario sc: text, delim (code or -1), header ("yes", "no", "auto"),     *)
(*  col: <<"auto">>, <<"index", i>>, <<"dtindex", i, j>>, <<"name", n>>,    *)
(*       <<"dtname", n, m>> (0-based)                                       *)
(*  fmt: <<"auto">>, <<"epoch", u>>, <<"explicit", f>>, <<"dt", f, g>>      *)
(*  zone: of Time, or "none"                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, CsvText, Time

HASH == 35
T_time == <<116, 105, 109, 101>>
T_date == <<100, 97, 116, 101>>
UnitName == [s |-> <<115,101,99,111,110,100,115>>, ms |-> <<109,105,108,108,105,115>>,
             us |-> <<109,105,99,114,111,115>>, ns |-> <<110,97,110,111,115>>]
UnitZeros == [s |-> 9, ms |-> 6, us |-> 3, ns |-> 0]

EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
StartsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
UnitsAtEnd(s) == {u \in DOMAIN UnitName : EndsWith(s, UnitName[u])}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j

-----------------------------------------------------------------------------
(* The timestamp column: [ok, cols (1-based, one, or date and time), unit or "none"] *)

NoCol == [ok |-> FALSE, cols |-> <<>>, unit |-> "none"]
Col(i, u) == [ok |-> TRUE, cols |-> <<i>>, unit |-> u]
Two(i, j) == [ok |-> TRUE, cols |-> <<i, j>>, unit |-> "none"]

AutoCol(names) ==
  LET n == [i \in DOMAIN names |-> Lower(names[i])]
      unit(s, pre) == {u \in DOMAIN UnitName : EndsWith(s, T_time \o UnitName[u]) /\ (pre <=> Len(s) > 4 + Len(UnitName[u]))}
      timeUnit == {i \in DOMAIN n : unit(n[i], FALSE) # {}}
      date == {i \in DOMAIN n : n[i] = T_date}
      time == {i \in DOMAIN n : n[i] = T_time}
      xTimeUnit == {i \in DOMAIN n : unit(n[i], TRUE) # {}}
      xDate == {i \in DOMAIN n : EndsWith(n[i], T_date) /\ n[i] # T_date}
      xTime == {i \in DOMAIN n : EndsWith(n[i], T_time) /\ n[i] # T_time}
      prefix(s) == SubSeq(s, 1, Len(s) - 4)
      theUnit(i, pre) == CHOOSE u \in DOMAIN UnitName : u \in unit(n[i], pre)
  IN IF timeUnit # {} THEN Col(Least(timeUnit), theUnit(Least(timeUnit), FALSE))
     ELSE IF date # {} THEN (IF time # {} THEN Two(Least(date), Least(time)) ELSE Col(Least(date), "none"))
     ELSE IF time # {} THEN Col(Least(time), "none")
     ELSE IF xTimeUnit # {} THEN Col(Least(xTimeUnit), theUnit(Least(xTimeUnit), TRUE))
     ELSE IF xDate # {} THEN
            (IF xTime # {} /\ prefix(n[Least(xDate)]) = prefix(n[Least(xTime)])
             THEN Two(Least(xDate), Least(xTime)) ELSE Col(Least(xDate), "none"))
     ELSE IF xTime # {} THEN Col(Least(xTime), "none")
     ELSE Col(1, "none")

Find(names, n) == {i \in DOMAIN names : names[i] = n}
NamedUnit(n) == LET u == UnitsAtEnd(n) IN IF u = {} THEN "none" ELSE CHOOSE x \in u : TRUE

Column(names, cfg) ==
  CASE cfg[1] = "auto" -> AutoCol(names)
    [] cfg[1] = "index" -> IF cfg[2] < Len(names) THEN Col(cfg[2] + 1, NamedUnit(names[cfg[2] + 1])) ELSE NoCol
    [] cfg[1] = "dtindex" -> IF cfg[2] < Len(names) /\ cfg[3] < Len(names) THEN Two(cfg[2] + 1, cfg[3] + 1) ELSE NoCol
    [] cfg[1] = "name" -> LET f == Find(names, cfg[2]) IN IF f = {} THEN NoCol ELSE Col(Least(f), NamedUnit(cfg[2]))
    [] cfg[1] = "dtname" -> LET f == Find(names, cfg[2])
                                g == Find(names, cfg[3])
                            IN IF f = {} \/ g = {} THEN NoCol ELSE Two(Least(f), Least(g))

-----------------------------------------------------------------------------
(* Times.  The meaning of a text is a set: {} if it is an error, otherwise one of *)
(* <<"digits", nanoseconds>> and <<"instant", ...>>.                              *)

\* an epoch number in unit u
Epoch(t, u) ==
  LET b == IF t # <<>> /\ t[1] = 43 THEN Tail(t) ELSE t IN
  IF b = <<>> \/ ~AllDigits(b) THEN {}
  ELSE LET n == OfText(b)
           x == Scale(n, UnitZeros[u])
       IN IF Le(n, MaxU64) /\ Le(x, MaxU64) THEN {<<"digits", x>>} ELSE {}

\* from 630 million to 2000 million seconds
InUnit(n, u) == /\ ~Lt(n, Scale(<<6, 3, 0, 0, 0, 0, 0, 0, 0>>, 9 - UnitZeros[u]))
                /\ Lt(n, Scale(<<2, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, 9 - UnitZeros[u]))

F(s) == Items(s)
\* %Y%m%d.%H%M%S  %Y%m%d %H%M%S  %Y%m%d %H:%M:%S  %Y/%m/%d-%H:%M:%S
Ymd == <<37, 89, 37, 109, 37, 100>>
HMS == <<37, 72, 37, 77, 37, 83>>
HcMcS == <<37, 72, 58, 37, 77, 58, 37, 83>>
TimeFormats == <<F(Ymd \o <<46>> \o HMS), F(Ymd \o <<32>> \o HMS), F(Ymd \o <<32>> \o HcMcS),
                 F(<<37, 89, 47, 37, 109, 47, 37, 100, 45>> \o HcMcS)>>
\* %Y%m%d#%H%M%S%3f  %Y%m%d#%H%M%S  %Y%m%d#%H:%M:%S  %Y%m%d#%-H:%M
SplitFormats == <<F(Ymd \o <<35>> \o HMS \o <<37, 51, 102>>), F(Ymd \o <<35>> \o HMS), F(Ymd \o <<35>> \o HcMcS),
                  F(Ymd \o <<35, 37, 45, 72, 58, 37, 77>>)>>
DateFormats == <<F(Ymd)>>
IsoFormats == <<Loose3339>>

\* numbers of the formats that understand text t in one of the given ways
Fits(formats, t, ways) == {k \in DOMAIN formats : LET u == Understand(formats[k], t) IN IF u.ok THEN u.has \in ways ELSE FALSE}

NoFmt == [k |-> "error"]
Units(u) == [k |-> "units", unit |-> u]
Text(its) == [k |-> "text", items |-> its]

AutoFmt(t, unit) ==
  IF unit # "none" THEN Units(unit)
  ELSE LET a == Fits(IsoFormats, t, {"offset"})
           b == Fits(TimeFormats, t, {"time"})
           c == Fits(DateFormats, t, {"date"})
           d == IF t # <<>> /\ AllDigits(t) THEN {u \in DOMAIN UnitZeros : InUnit(OfText(t), u)} ELSE {}
       IN IF a # {} THEN Text(IsoFormats[Least(a)])
          ELSE IF b # {} THEN Text(TimeFormats[Least(b)])
          ELSE IF c # {} THEN Text(DateFormats[Least(c)])
          ELSE IF d # {} THEN Units(CHOOSE u \in d : TRUE)
          ELSE NoFmt

AutoSplitFmt(t) == LET a == Fits(SplitFormats, t, {"time"}) IN IF a = {} THEN NoFmt ELSE Text(SplitFormats[Least(a)])

\* cfg: the configured format, c: the chosen column, t: text of the first row
Format(cfg, c, t) ==
  CASE cfg[1] = "epoch" -> Units(cfg[2])
    [] cfg[1] = "explicit" -> Text(F(cfg[2]))
    [] cfg[1] = "dt" -> Text(F(cfg[2] \o <<HASH>> \o cfg[3]))
    [] cfg[1] = "auto" -> IF Len(c.cols) = 1 THEN AutoFmt(t, c.unit) ELSE AutoSplitFmt(t)

TimeOf(t, fmt, zone) ==
  CASE fmt.k = "error" -> {}
    [] fmt.k = "units" -> Epoch(t, fmt.unit)
    [] fmt.k = "text" -> LET u == Understand(fmt.items, t) IN
                         IF u.ok THEN {<<"instant", i>> : i \in Instants(u, zone)} ELSE {}

\* text of the timestamp of a record: a set, empty if the record is too short
StampText(rec, c) ==
  IF ~c.ok \/ \E j \in DOMAIN c.cols : c.cols[j] > Len(rec) THEN {}
  ELSE IF Len(c.cols) = 1 THEN {rec[c.cols[1]]}
  ELSE {rec[c.cols[1]] \o <<HASH>> \o rec[c.cols[2]]}
Stamp(rec, c, fmt, zone) == UNION {TimeOf(t, fmt, zone) : t \in StampText(rec, c)}

-----------------------------------------------------------------------------
Expect(sc) ==
  LET lines == GuessLines(FirstLines(sc.text, 8192))
      delim == IF sc.delim >= 0 THEN sc.delim ELSE GuessDelimiter(lines)
      head == IF sc.header = "auto" THEN GuessHeader(lines, delim) ELSE sc.header = "yes"
      recs == Records(sc.text, delim)
      names == IF recs = <<>> THEN <<>>
               ELSE IF head THEN recs[1]
               ELSE [i \in DOMAIN recs[1] |-> <<99, 111, 108, 95>> \o TextOf(DigitsOf(i - 1))]
      data == IF head /\ recs # <<>> THEN Tail(recs) ELSE recs
      c == Column(names, sc.col)
      first == IF data = <<>> THEN {} ELSE StampText(data[1], c)
      fmt == IF ~c.ok \/ first = {} THEN NoFmt ELSE Format(sc.fmt, c, CHOOSE t \in first : TRUE)
      time(k) == IF Len(data[k]) > Len(names) \/ ~IsText(data[k]) THEN {} ELSE Stamp(data[k], c, fmt, sc.zone)
      times == [k \in DOMAIN data |-> time(k)]
      bad == {k \in DOMAIN data : times[k] = {}}
  IN [ names |-> names, data |-> data, times |-> times,
       headOk |-> (recs = <<>> \/ ~head \/ IsText(recs[1])),
       colOk |-> c.ok,
       bad |-> IF bad = {} THEN 0 ELSE Least(bad) ]

-----------------------------------------------------------------------------
VARIABLES st,    \* "start", "rows", "over"
          done   \* rows delivered

Init == st = "start" /\ done = 0

Header(X, n) ==
  /\ st = "start"
  /\ X.headOk
  /\ X.colOk \/ X.data = <<>>
  /\ n = X.names
  /\ st' = "rows" /\ UNCHANGED done

Row(X, digits, instant, v) ==
  /\ st = "rows"
  /\ done < Len(X.data)
  /\ X.bad = 0 \/ done + 1 < X.bad
  /\ LET k == done + 1
         r == X.data[k]
     IN /\ v = [i \in DOMAIN X.names |-> IF i <= Len(r) THEN <<"T", r[i]>> ELSE <<"N", <<>>>>]
        /\ \A x \in X.times[k] : x[2] = IF x[1] = "digits" THEN digits ELSE instant
  /\ done' = done + 1 /\ UNCHANGED st

Eof(X) == /\ st = "rows"
          /\ X.bad = 0 /\ done = Len(X.data)
          /\ st' = "over" /\ UNCHANGED done

\* a row that cannot be taken makes the run fail; it may be read ahead by one row
Err(X) == /\ IF st = "start" THEN ~X.headOk \/ ~X.colOk \/ X.bad = 1
             ELSE st = "rows" /\ X.bad # 0 /\ done \in {X.bad - 1, X.bad - 2}
          /\ st' = "over" /\ UNCHANGED done
=============================================================================

---------------------------------- MODULE Cli ----------------------------------
(***************************************************************************)
(* The command line: what a run with these arguments, environment, files and  *)
(* standard input has to come to.  It is put together from the other           *)
(* specifications: Detect (who reads an input), CsvIn and DcFormat (what is    *)
(* read), MultiFile (directories), RangeTime (begin and end), CsvOut and       *)
(* DcFormat (what is written).                                                 *)
(*                                                                             *)
(* A scenario sc has                                                           *)
(*   argv   texts (codes)                                                      *)
(*   tz     <<>> or <<text>>: the environment's time zone                      *)
(*   files  [path, layers] relative to the working directory (see Detect;      *)
(*          b: the bytes, t: the same as text)                                 *)
(*   dirs   directories, all of them                                           *)
(*   full   files that are not able to take anything                           *)
(*   stdin  layers                                                             *)
(*   from   <<>> or <<path>>: the file that is the standard input              *)
(*   links  [path, to]: links to files                                         *)
(*   stdout "pipe", "full" or "gone" (nobody reads it)                         *)
(*   more   what a program that is built on the tool adds to it:                *)
(*          zones [name, zone], given [path, layers, fail]: what is behind the   *)
(*          paths that start so, user: BOOLEAN, a format of its own that is      *)
(*          dc behind a mark                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Digits

Tm == INSTANCE Time
C == INSTANCE CsvIn WITH st <- "", done <- 0
D == INSTANCE DcFormat WITH MaxShort <- 32767, st <- "", at <- 0, types <- <<>>
M == INSTANCE MultiFile WITH Focus <- "ALL", cur <- 0, pos <- 0, maps <- {}, over <- ""
O == INSTANCE CsvOut WITH st <- "", taken <- 0
R == INSTANCE RangeTime WITH answered <- FALSE
E == INSTANCE Detect

\* texts as codes
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]

-----------------------------------------------------------------------------
(* The arguments *)

Opt(long, short, v) == [k |-> long, long |-> Codes(long), short |-> Codes(short), v |-> v]
Options == {
  Opt("output", "o", TRUE), Opt("format", "f", TRUE), Opt("timezone", "z", TRUE), Opt("begin", "b", TRUE), Opt("end", "e", TRUE),
  Opt("backtrace", "", FALSE), Opt("time-col-name", "", TRUE), Opt("epoch", "E", FALSE), Opt("human", "H", FALSE),
  Opt("granularity", "g", TRUE), Opt("csv-in-delimiter", "", TRUE), Opt("delimiter", "", TRUE), Opt("csv-in-has-header", "", TRUE),
  Opt("print-time", "", TRUE), Opt("csv-in-ts-col", "", TRUE), Opt("csv-in-ts-col-date", "", TRUE), Opt("csv-in-ts-col-time", "", TRUE),
  Opt("csv-in-ts-fmt", "", TRUE), Opt("csv-in-ts-fmt-date", "", TRUE), Opt("csv-in-ts-fmt-time", "", TRUE), Opt("csv-in-epoch", "", TRUE),
  Opt("help", "h", FALSE), Opt("version", "V", FALSE) }
Info == {"help", "version"}
DASH == 45
EQ == 61
COMMA == 44
SLASH == 47

From(s, i) == SubSeq(s, i, Len(s))
Looks(tok) == Len(tok) > 1 /\ tok[1] = DASH      \* like an option

\* r: "" so far, "info" or "usage"; given: <<option, value>>; pos: inputs; loose: it may be refused, too
NoArgs == [i |-> 1, r |-> "", given |-> <<>>, pos |-> <<>>, rest |-> FALSE, loose |-> FALSE]
Usage(p) == [p EXCEPT !.r = "usage"]
Give(p, o, val, n) == [p EXCEPT !.given = Append(@, <<o.k, val>>), !.i = @ + n]
\* the value is the next argument; without one, those that have a default may come to it
Defaulted == {"granularity", "delimiter", "csv-in-has-header", "print-time"}
Next(p, args, o) ==
  IF p.i < Len(args) /\ ~Looks(args[IF p.i < Len(args) THEN p.i + 1 ELSE p.i]) THEN Give(p, o, args[p.i + 1], 2)
  ELSE IF o.k \in Defaulted THEN [p EXCEPT !.i = @ + 1, !.loose = TRUE]
  ELSE Usage(p)

Long(p, args) ==
  LET tok == From(args[p.i], 3)
      eqs == {i \in DOMAIN tok : tok[i] = EQ}
      at == IF eqs = {} THEN 0 ELSE CHOOSE i \in eqs : \A j \in eqs : i <= j
      name == IF at = 0 THEN tok ELSE SubSeq(tok, 1, at - 1)
      os == {o \in Options : o.long = name}
  IN IF os = {} THEN Usage(p)
     ELSE LET o == CHOOSE o \in os : TRUE IN
          IF o.k \in Info THEN [p EXCEPT !.r = "info", !.loose = @ \/ at # 0]
          ELSE IF ~o.v THEN (IF at = 0 THEN Give(p, o, <<>>, 1) ELSE [Give(p, o, <<>>, 1) EXCEPT !.loose = TRUE])
          ELSE IF at # 0 THEN Give(p, o, From(tok, at + 1), 1)
          ELSE Next(p, args, o)

RECURSIVE Short(_, _, _)
Short(p, args, j) ==
  LET tok == args[p.i]
      os == {o \in Options : o.short = <<tok[j]>>}
  IN IF os = {} THEN Usage(p)
     ELSE LET o == CHOOSE o \in os : TRUE IN
          IF o.k \in Info THEN [p EXCEPT !.r = "info"]
          ELSE IF o.v THEN (IF j = Len(tok) THEN Next(p, args, o)
                            ELSE Give(p, o, From(tok, IF tok[j + 1] = EQ THEN j + 2 ELSE j + 1), 1))
          ELSE IF j = Len(tok) THEN Give(p, o, <<>>, 1)
          ELSE Short([p EXCEPT !.given = Append(@, <<o.k, <<>> >>)], args, j + 1)

Arg(p, args) ==
  LET tok == args[p.i] IN
  IF p.rest \/ ~Looks(tok) THEN [p EXCEPT !.pos = Append(@, tok), !.i = @ + 1]
  ELSE IF tok = <<DASH, DASH>> THEN [p EXCEPT !.rest = TRUE, !.i = @ + 1]
  ELSE IF tok[2] = DASH THEN Long(p, args)
  ELSE Short(p, args, 2)

RECURSIVE Args(_, _)
Args(p, args) == IF p.r # "" \/ p.i > Len(args) THEN p ELSE Args(Arg(p, args), args)

-----------------------------------------------------------------------------
(* What they ask for *)
Values(p, k) == [i \in DOMAIN SelectSeq(p.given, LAMBDA g : g[1] = k) |-> SelectSeq(p.given, LAMBDA g : g[1] = k)[i][2]]
Has(p, k) == \E i \in DOMAIN p.given : p.given[i][1] = k
Val(p, k) == p.given[CHOOSE i \in DOMAIN p.given : p.given[i][1] = k][2]
ValOr(p, k, default) == IF Has(p, k) THEN Val(p, k) ELSE default

UnitNames == [s |-> Codes("s"), ms |-> Codes("ms"), us |-> Codes("us"), ns |-> Codes("ns")]
UnitsOf(t) == {u \in DOMAIN UnitNames : UnitNames[u] = t}
UnitOf(t) == CHOOSE u \in DOMAIN UnitNames : UnitNames[u] = t
Lower(t) == C!Lower(t)

Repeats(p) == \E i, j \in DOMAIN p.given : i # j /\ p.given[i][1] = p.given[j][1]
OneOf(p, k, S) == Has(p, k) => Val(p, k) \in S
YesNo == {Codes("yes"), Codes("no")}
BadUsage(p) ==
  \/ Repeats(p)
  \/ ~OneOf(p, "granularity", {UnitNames[u] : u \in DOMAIN UnitNames})
  \/ ~OneOf(p, "csv-in-epoch", {UnitNames[u] : u \in DOMAIN UnitNames})
  \/ Has(p, "csv-in-has-header") /\ Lower(Val(p, "csv-in-has-header")) \notin YesNo \cup {Codes("auto")}
  \/ Has(p, "print-time") /\ Lower(Val(p, "print-time")) \notin YesNo
  \/ Has(p, "csv-in-ts-col-date") # Has(p, "csv-in-ts-col-time")
  \/ Has(p, "csv-in-ts-fmt-time") /\ ~Has(p, "csv-in-ts-fmt-date")
  \/ \E a \in {"csv-in-ts-col-date", "csv-in-ts-col-time", "csv-in-ts-fmt-date", "csv-in-ts-fmt-time"} :
       Has(p, a) /\ (Has(p, "csv-in-ts-col") \/ Has(p, "csv-in-ts-fmt"))
  \/ Has(p, "csv-in-epoch") /\ (Has(p, "csv-in-ts-col-date") \/ Has(p, "csv-in-ts-col-time") \/ Has(p, "csv-in-ts-fmt"))
\* what is not clear from the description of the options
Unclear(p) ==
  \/ Has(p, "epoch") /\ Has(p, "human")
  \/ Has(p, "csv-in-ts-fmt-date") /\ (~Has(p, "csv-in-ts-fmt-time") \/ Has(p, "csv-in-epoch"))

Zones == { <<Codes("UTC"), "UTC">>, <<Codes("Asia/Tokyo"), "Tokyo">>, <<Codes("Asia/Kolkata"), "Kolkata">>, <<Codes("Etc/GMT+5"), "GMTp5">>,
           <<Codes("America/New_York"), "NewYork">>, <<Codes("Europe/London"), "London">>, <<Codes("Australia/Sydney"), "Sydney">>,
           <<Codes("Australia/Lord_Howe"), "LordHowe">>, <<Codes("Europe/Berlin"), "Berlin">>,
           <<Codes("Atlantic/Azores"), "Azores">>, <<Codes("Asia/Beirut"), "Beirut">> }
\* "bad" if there is no such zone; own names come first
Zone(p, tz, own) ==
  IF ~Has(p, "timezone") /\ tz = <<>> THEN "none"
  ELSE LET t == IF Has(p, "timezone") THEN Val(p, "timezone") ELSE tz[1]
           m == {i \in DOMAIN own : own[i].name = t}
           z == {x \in Zones : x[1] = t}
       IN IF m # {} THEN own[CHOOSE i \in m : TRUE].zone
          ELSE IF z = {} THEN "bad" ELSE (CHOOSE x \in z : TRUE)[2]

\* sums
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, carry) ==
  IF i = 0 THEN (IF carry = 0 THEN <<>> ELSE <<carry>>)
  ELSE LET s == a[i] + b[i] + carry IN Append(AddFrom(a, b, i - 1, s \div 10), s % 10)
Wide(a, n) == Zeros(n - Len(a)) \o a
Add(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b) IN Strip0(AddFrom(Wide(a, n), Wide(b, n), n, 0))
\* an instant in nanoseconds
Nanos(i) == LET s == Add(Scale(DigitsOf(i[1] * 864), 2), DigitsOf(i[2])) IN Strip0(s \o Wide(DigitsOf(i[3]), 9))
Digit(x) == IF x[1] = "digits" THEN x[2] ELSE Nanos(x[2])

\* begin or end: <<>> if there is none; the set is empty if it is an error
Bound(p, k, zone) == IF ~Has(p, k) THEN {<<>>} ELSE {<<Digit(x)>> : x \in R!Meaning(Val(p, k), zone)}

Pieces(s, c) == C!Split(s, c)
\* the formats; behind the last comma there is none
Formats(p) ==
  IF ~Has(p, "format") THEN << Codes("auto") >>
  ELSE LET f == Pieces(Val(p, "format"), COMMA) IN IF Len(f) > 1 /\ f[Len(f)] = <<>> THEN SubSeq(f, 1, Len(f) - 1) ELSE f

\* -1: to be guessed, -2: there is no such delimiter
InDelim(p) ==
  IF ~Has(p, "csv-in-delimiter") THEN -1
  ELSE LET t == Val(p, "csv-in-delimiter") IN
       IF t = Codes("\\t") THEN 9 ELSE IF Len(t) = 1 THEN (IF t[1] < 128 THEN t[1] ELSE -2) ELSE -2

IsIndex(t) == t # <<>> /\ AllDigits(t) /\ Len(t) < 9
Number(t) == Num(OfText(t))
TsCol(p) ==
  IF Has(p, "csv-in-ts-col-date")
  THEN LET a == Val(p, "csv-in-ts-col-date")
           b == Val(p, "csv-in-ts-col-time")
       IN IF IsIndex(a) /\ IsIndex(b) THEN <<"dtindex", Number(a), Number(b)>> ELSE <<"dtname", a, b>>
  ELSE IF Has(p, "csv-in-ts-col")
  THEN LET a == Val(p, "csv-in-ts-col") IN IF IsIndex(a) THEN <<"index", Number(a)>> ELSE <<"name", a>>
  ELSE <<"auto">>
TsFmt(p) ==
  IF Has(p, "csv-in-ts-fmt-date") THEN <<"dt", Val(p, "csv-in-ts-fmt-date"), ValOr(p, "csv-in-ts-fmt-time", Codes("%H:%M:%S"))>>
  ELSE IF Has(p, "csv-in-ts-fmt") THEN <<"explicit", Val(p, "csv-in-ts-fmt")>>
  ELSE IF Has(p, "csv-in-epoch") THEN <<"epoch", UnitOf(Val(p, "csv-in-epoch"))>>
  ELSE <<"auto">>
Header(p) == LET h == Lower(ValOr(p, "csv-in-has-header", Codes("auto"))) IN
             IF h = Codes("yes") THEN "yes" ELSE IF h = Codes("no") THEN "no" ELSE "auto"

OutConfig(p, zone) ==
  [ delim |-> ValOr(p, "delimiter", <<COMMA>>),
    print |-> Lower(ValOr(p, "print-time", Codes("yes"))) = Codes("yes"),
    name |-> IF Has(p, "time-col-name") THEN <<Val(p, "time-col-name")>> ELSE <<>>,
    style |-> IF Has(p, "epoch") THEN "epoch" ELSE "human",
    unit |-> UnitOf(ValOr(p, "granularity", Codes("ns"))),
    zone |-> zone ]

-----------------------------------------------------------------------------
(* Inputs.  What is read from one: open, names (codes), types, rows [ts: digits, v], *)
(* trouble: behind these rows it fails.  Texts are <<"T", codes>>.                    *)
Broken == [open |-> FALSE, n |-> <<>>, t |-> <<>>, rows |-> <<>>, trouble |-> TRUE]

CsvSource(text, cfg) ==
  LET X == C!Expect([text |-> text, delim |-> cfg.delim, header |-> cfg.header, col |-> cfg.col, fmt |-> cfg.fmt, zone |-> cfg.zone])
      n == IF X.bad = 0 THEN Len(X.data) ELSE X.bad - 1
  IN IF ~X.headOk \/ (~X.colOk /\ X.data # <<>>) \/ X.bad = 1 THEN Broken
     ELSE [ open |-> TRUE, n |-> X.names, t |-> [i \in DOMAIN X.names |-> "T"],
            rows |-> [k \in 1..n |-> [ ts |-> Digit(CHOOSE x \in X.times[k] : TRUE),
                                       v |-> [i \in DOMAIN X.names |-> IF i <= Len(X.data[k]) THEN <<"T", X.data[k][i]>> ELSE <<"N", <<>> >>] ]],
            trouble |-> X.bad # 0 ]

\* UTF-8
RECURSIVE Decode(_, _)
Decode(b, i) ==
  IF i > Len(b) THEN <<>>
  ELSE LET x == b[i] IN
       IF x < 128 THEN <<x>> \o Decode(b, i + 1)
       ELSE IF x < 224 THEN <<(x - 192) * 64 + (b[i + 1] - 128)>> \o Decode(b, i + 2)
       ELSE IF x < 240 THEN <<((x - 224) * 64 + (b[i + 1] - 128)) * 64 + (b[i + 2] - 128)>> \o Decode(b, i + 3)
       ELSE <<(((x - 240) * 64 + (b[i + 1] - 128)) * 64 + (b[i + 2] - 128)) * 64 + (b[i + 3] - 128)>> \o Decode(b, i + 4)
Encode1(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8Text(t) == FlattenSeq([i \in DOMAIN t |-> Encode1(t[i])])

\* big endian bytes as digits, and back
RECURSIVE Times(_, _)     \* times k (up to 256)
Times(d, k) == IF k = 0 THEN <<0>> ELSE LET h == Times(d, k \div 2)
                                             s == Add(h, h)
                                         IN IF k % 2 = 1 THEN Add(s, d) ELSE s
Unsigned(b) == FoldLeft(LAMBDA d, x : Add(Times(d, 256), DigitsOf(x)), <<0>>, b)
RECURSIVE ToBytes(_, _)
ToBytes(d, n) == IF n = 0 THEN <<>> ELSE LET q == DivMod(d, 256) IN Append(ToBytes(q[1], n - 1), q[2])

RECURSIVE DcRows(_, _, _, _)
DcRows(b, p, t, rows) ==
  IF p = Len(b) THEN [rows |-> rows, trouble |-> FALSE]
  ELSE LET r == D!ReadRow(b, p, t) IN
       IF ~r.ok THEN [rows |-> rows, trouble |-> TRUE]
       ELSE DcRows(b, r.p, t, Append(rows, [ ts |-> Unsigned(r.row.ts),
                                              v |-> [i \in DOMAIN t |-> LET x == r.row.v[i] IN IF x[1] = "T" THEN <<"T", Decode(x[2], 1)>> ELSE x] ]))
DcSource(b) ==
  LET h == D!ReadHeader(b) IN
  IF ~h.ok THEN Broken
  ELSE LET x == DcRows(b, h.p, h.t, <<>>) IN
       [ open |-> TRUE, n |-> [i \in DOMAIN h.n |-> Decode(D!Named(h.n)[i], 1)], t |-> h.t, rows |-> x.rows, trouble |-> x.trouble ]

Mark == Codes("UDC!")
Setup(more) ==
  [ users |-> IF more.user THEN << [suffix |-> Codes(".udc"), magic |-> Mark, any |-> FALSE, fail |-> FALSE] >> ELSE <<>>,
    trans |-> [i \in DOMAIN more.given |-> [prefix |-> more.given[i].path, fail |-> more.given[i].fail, layers |-> more.given[i].layers]],
    csv |-> TRUE ]
\* n: an input of Detect
Single(n, cfg) ==
  LET s == E!Decide(Setup(cfg.more), n) IN
  CASE s.by = "error" -> Broken
    [] s.by = "user1" -> IF E!StartsWith(s.ls[s.i].b, Mark) THEN DcSource(From(s.ls[s.i].b, 5)) ELSE Broken
    [] s.by = "csv" -> CsvSource(s.ls[s.i].t, cfg)
    [] s.by = "dc" -> DcSource(s.ls[s.i].b)

\* a path without what does not count
Steps(path) == SelectSeq(E!Components(path, 1, <<>>), LAMBDA x : x # <<>> /\ x # <<46>>)
\* where a path leads to
Real(sc, path) == LET l == {i \in DOMAIN sc.links : Steps(sc.links[i].path) = Steps(path)}
                  IN IF l = {} THEN Steps(path) ELSE Steps(sc.links[CHOOSE i \in l : TRUE].to)
FileAt(sc, path) == {i \in DOMAIN sc.files : Steps(sc.files[i].path) = Real(sc, path)}
IsDir(sc, path) == path # <<>> /\ (Steps(path) = <<>> \/ \E i \in DOMAIN sc.dirs : Steps(sc.dirs[i]) = Steps(path))
Name(path) == LET s == Steps(path) IN s[Len(s)]
Parent(steps) == SubSeq(steps, 1, Len(steps) - 1)

File(f, fmt, cfg) ==
  Single([stdin |-> FALSE, path |-> f.path, exists |-> TRUE, layers |-> f.layers, auto |-> fmt = Codes("auto"), fmt |-> fmt], cfg)

\* files of a directory, one after the other
RECURSIVE Chain(_, _, _, _, _)
Chain(fs, k, src, fmt, cfg) ==
  IF k > Len(fs) THEN src
  ELSE LET f == File(fs[k], fmt, cfg) IN
       IF k = 1 THEN (IF f.trouble THEN f ELSE Chain(fs, 2, f, fmt, cfg))
       ELSE IF ~f.open THEN [src EXCEPT !.trouble = TRUE]
       ELSE LET fit == M!Plan(src, f).fit IN
            IF fit = {} THEN [src EXCEPT !.trouble = TRUE]
            ELSE LET m == CHOOSE m \in fit : TRUE
                     rows == [i \in DOMAIN f.rows |-> [ts |-> f.rows[i].ts, v |-> M!Aligned(f.rows[i].v, m)]]
                     more == [src EXCEPT !.rows = @ \o rows, !.trouble = f.trouble]
                 IN IF f.trouble THEN more ELSE Chain(fs, k + 1, more, fmt, cfg)
Dir(sc, path, fmt, cfg) ==
  LET in == SelectSeq(sc.files, LAMBDA f : Parent(Steps(f.path)) = Steps(path))
      fs == SortSeq(in, LAMBDA f, g : M!LexLess(Utf8Text(Name(f.path)), Utf8Text(Name(g.path))))
  IN Chain(fs, 1, [open |-> TRUE, n |-> <<>>, t |-> <<>>, rows |-> <<>>, trouble |-> FALSE], fmt, cfg)

Input(sc, path, fmt, cfg) ==
  IF IsDir(sc, path) THEN Dir(sc, path, fmt, cfg)
  ELSE LET i == FileAt(sc, path) IN
       IF i = {} THEN Single([stdin |-> FALSE, path |-> path, exists |-> FALSE, layers |-> <<>>, auto |-> fmt = Codes("auto"), fmt |-> fmt], cfg)
       ELSE LET f == sc.files[CHOOSE x \in i : TRUE] IN File([f EXCEPT !.path = path], fmt, cfg)
StdIn(sc, fmt, cfg) ==
  Single([stdin |-> TRUE, path |-> <<>>, exists |-> FALSE, layers |-> sc.stdin, auto |-> fmt = Codes("auto"), fmt |-> fmt], cfg)

Sources(sc, p, cfg) ==
  LET f == Formats(p) IN
  IF p.pos = <<>> THEN <<StdIn(sc, f[1], cfg)>>
  ELSE [i \in DOMAIN p.pos |-> Input(sc, p.pos[i], IF i <= Len(f) THEN f[i] ELSE f[Len(f)], cfg)]

-----------------------------------------------------------------------------
(* Rows in order *)
Sorted(src) == \A i \in 1..(Len(src.rows) - 1) : Le(src.rows[i].ts, src.rows[i + 1].ts)
Within(ts, begin, end) == (begin # <<>> => Le(begin[1], ts)) /\ (end # <<>> => Lt(ts, end[1]))
\* it is not read up to its trouble
Spared(src, end) == end # <<>> /\ \E i \in DOMAIN src.rows : Le(end[1], src.rows[i].ts)

Merged(srcs, begin, end) ==
  LET all == FlattenSeq([s \in DOMAIN srcs |->
               [i \in DOMAIN srcs[s].rows |-> [ts |-> srcs[s].rows[i].ts, s |-> s, i |-> i, v |-> srcs[s].rows[i].v]]])
      some == SelectSeq(all, LAMBDA r : Within(r.ts, begin, end))
  IN SortSeq(some, LAMBDA a, b : Lt(a.ts, b.ts) \/ (a.ts = b.ts /\ (a.s < b.s \/ (a.s = b.s /\ a.i < b.i))))

-----------------------------------------------------------------------------
(* Output *)
Minus(b) == LET c == [i \in DOMAIN b |-> 255 - b[i]] IN Add(Unsigned(c), <<1>>)
CsvValue(x) ==
  CASE x[1] = "N" -> [k |-> "N"]
    [] x[1] = "T" -> [k |-> "T", t |-> x[2]]
    [] x[1] \in {"B", "C"} -> [k |-> x[1], neg |-> FALSE, d |-> Unsigned(x[2])]
    [] x[1] \in {"S", "I", "J"} -> IF x[2][1] < 128 THEN [k |-> x[1], neg |-> FALSE, d |-> Unsigned(x[2])]
                                   ELSE [k |-> x[1], neg |-> TRUE, d |-> Minus(x[2])]
CsvRow(r) == [ts |-> r.ts, v |-> [i \in DOMAIN r.v |-> CsvValue(r.v[i])]]
DcValue(x) == IF x[1] = "T" THEN <<"T", Utf8Text(x[2])>> ELSE x
DcFile(n, t, rows) ==
  D!Encode([n |-> [i \in DOMAIN n |-> Utf8Text(n[i])], t |-> t],
           [k \in DOMAIN rows |-> [ts |-> ToBytes(rows[k].ts, 8), v |-> [i \in DOMAIN t |-> DcValue(rows[k].v[i])]]])

Target(p) ==
  IF ~Has(p, "output") THEN "stdout"
  ELSE IF E!EndsWith(Val(p, "output"), Codes("csv")) THEN "csv"
  ELSE IF E!EndsWith(Val(p, "output"), Codes("dc")) THEN "dc"
  ELSE "none"
CanCreate(sc, path) ==
  LET s == Steps(path) IN
  /\ s # <<>> /\ ~IsDir(sc, path)
  /\ Len(s) = 1 \/ \E i \in DOMAIN sc.dirs : Steps(sc.dirs[i]) = Parent(s)
  /\ \A i \in DOMAIN sc.full : Steps(sc.full[i]) # s

\* the output would be written over an input
Own(sc, p) ==
  LET out == Real(sc, Val(p, "output")) IN
  /\ Has(p, "output")
  /\ \E i \in DOMAIN sc.files : Steps(sc.files[i].path) = out
  /\ IF p.pos = <<>> THEN sc.from # <<>> /\ Real(sc, sc.from[1]) = out
     ELSE \E i \in DOMAIN p.pos : Real(sc, p.pos[i]) = out \/ (IsDir(sc, p.pos[i]) /\ Parent(out) = Steps(p.pos[i]))

-----------------------------------------------------------------------------
(* What the run has to come to:                                              *)
(*   k     "info", "fail", "done" or "any"                                    *)
(*   may   it may fail as well                                                *)
(*   to    "stdout", "csv", "dc"; with cfg, n, t and rows                     *)
Fail(what) == [k |-> "fail", may |-> TRUE, what |-> what]
Whole(sc, p, zone, begin, end) ==
  LET cfg == [delim |-> InDelim(p), header |-> Header(p), col |-> TsCol(p), fmt |-> TsFmt(p), zone |-> zone, more |-> sc.more]
      srcs == Sources(sc, p, cfg)
      to == Target(p)
  IN IF \E i \in DOMAIN srcs : ~srcs[i].open THEN Fail("input")
     ELSE IF Own(sc, p) THEN Fail("output is an input")
     ELSE IF \E i, j \in DOMAIN srcs : srcs[i].n # srcs[j].n \/ srcs[i].t # srcs[j].t THEN Fail("headers")
     ELSE IF to = "none" THEN Fail("kind of output")
     ELSE IF to # "stdout" /\ ~CanCreate(sc, Val(p, "output")) THEN Fail("output")
     ELSE IF to = "stdout" /\ sc.stdout # "pipe" THEN Fail("stdout")
     ELSE IF \E i \in DOMAIN srcs : ~Sorted(srcs[i]) THEN [k |-> "any", may |-> TRUE]
     ELSE IF \E i \in DOMAIN srcs : srcs[i].trouble /\ ~Spared(srcs[i], end) THEN Fail("row")
     ELSE LET rows == Merged(srcs, begin, end)
              out == OutConfig(p, zone)
          IN IF to # "dc" /\ \E i \in DOMAIN rows : ~O!CanTake(out, CsvRow(rows[i])) THEN Fail("row of output")
             ELSE [ k |-> "done", may |-> p.loose \/ Unclear(p) \/ \E i \in DOMAIN srcs : srcs[i].trouble,
                    to |-> to, cfg |-> out, n |-> srcs[1].n, t |-> srcs[1].t, rows |-> rows ]
Expect(sc) ==
  LET p == Args(NoArgs, sc.argv) IN
  IF p.r = "usage" THEN Fail("usage")
  ELSE IF p.r = "info" THEN [k |-> "info", may |-> p.loose \/ Repeats(p)]
  ELSE IF BadUsage(p) THEN Fail("usage")
  ELSE LET zone == Zone(p, sc.tz, sc.more.zones) IN
       IF zone = "bad" THEN Fail("zone")
       ELSE LET begin == Bound(p, "begin", zone)
                end == Bound(p, "end", zone)
            IN IF begin = {} \/ end = {} THEN Fail("range")
               ELSE IF InDelim(p) = -2 THEN Fail("delimiter")
               ELSE Whole(sc, p, zone, CHOOSE x \in begin : TRUE, CHOOSE x \in end : TRUE)

-----------------------------------------------------------------------------
(* A run: status, out (text on standard output), err (there is a message), crash,  *)
(* files: regular files that are new or have changed, [path, b, t]                  *)
Path(sc) == Val(Args(NoArgs, sc.argv), "output")
Complete(sc, x, e) ==
  /\ e.status = 0 /\ ~e.crash
  /\ IF x.to = "stdout"
     THEN /\ e.files = <<>>
          /\ O!IsFile(e.out, x.cfg, x.n, [i \in DOMAIN x.rows |-> CsvRow(x.rows[i])])
     ELSE /\ e.out = <<>>
          /\ Len(e.files) = 1 /\ Steps(e.files[1].path) = Real(sc, Path(sc))
          /\ IF x.to = "csv" THEN O!IsFile(e.files[1].t, x.cfg, x.n, [i \in DOMAIN x.rows |-> CsvRow(x.rows[i])])
             ELSE e.files[1].b = DcFile(x.n, x.t, x.rows)
\* nobody is told that nobody listens
\* files that may have changed if the run fails: inputs never do
Touched(sc) == LET p == Args(NoArgs, sc.argv) IN
  IF p.r \in {"usage", "info"} THEN {}
  ELSE IF ~Has(p, "output") THEN {}
  ELSE IF Own(sc, p) THEN {} ELSE {Real(sc, Val(p, "output"))}
Failed(sc, e) ==
  /\ e.status # 0 /\ ~e.crash /\ (e.err \/ sc.stdout = "gone")
  /\ \A i \in DOMAIN e.files : Steps(e.files[i].path) \in Touched(sc)
Judge(sc, x, e) ==
  \/ x.may /\ Failed(sc, e)
  \/ x.k = "done" /\ Complete(sc, x, e)
  \/ x.k = "info" /\ e.status = 0 /\ ~e.crash /\ e.files = <<>> /\ e.out # <<>>
  \/ x.k = "any" /\ ~e.crash /\ (e.status = 0 \/ Failed(sc, e))
=============================================================================

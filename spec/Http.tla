--------------------------------- MODULE Http ----------------------------------
(***************************************************************************)
(* Remote inputs: what a client has to make of the bytes a server sends, and   *)
(* what is read from an input named by an http address.                        *)
(*                                                                             *)
(* A scenario sc has                                                           *)
(*   url      bytes                                                            *)
(*   auto, fmt  the format given for it                                        *)
(*   refuse   nobody listens                                                   *)
(*   answers  sequence of [target, sent, end, layers]: to a request for target  *)
(*            these bytes are sent, and then the connection is closed ("close"), *)
(*            kept ("keep") or reset ("reset"); layers: of the contents          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

C == INSTANCE Cli
D == INSTANCE DcFormat WITH MaxShort <- 32767, st <- "", at <- 0, types <- <<>>
E == INSTANCE Detect
Codes(s) == C!Codes(s)

CR == 13
LF == 10
SP == 32
Bad == [ok |-> FALSE]

-----------------------------------------------------------------------------
(* The message *)
\* first place of x from i on, 0 if there is none
RECURSIVE Find(_, _, _)
Find(b, x, i) == IF i > Len(b) THEN 0 ELSE IF b[i] = x THEN i ELSE Find(b, x, i + 1)
\* line from i on: [ok, s, p], p behind its end
Line(b, i) ==
  LET e == Find(b, LF, i) IN
  IF e < i + 1 \/ e = 0 THEN Bad ELSE IF b[e - 1] # CR THEN Bad ELSE [ok |-> TRUE, s |-> SubSeq(b, i, e - 2), p |-> e + 1]
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in {SP, 9} THEN TrimL(Tail(s)) ELSE s
Trim(s) == Reverse(TrimL(Reverse(TrimL(s))))
Lower(s) == [i \in DOMAIN s |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]

\* header fields: [ok, f, p], f: sequence of <<lower case name, value>>
RECURSIVE Fields(_, _, _)
Fields(b, i, f) ==
  LET l == Line(b, i) IN
  IF ~l.ok THEN Bad
  ELSE IF l.s = <<>> THEN [ok |-> TRUE, f |-> f, p |-> l.p]
  ELSE LET c == Find(l.s, 58, 1) IN
       Fields(b, l.p, IF c = 0 THEN f ELSE Append(f, <<Lower(SubSeq(l.s, 1, c - 1)), Trim(SubSeq(l.s, c + 1, Len(l.s)))>>))
Has(f, name) == \E i \in DOMAIN f : f[i][1] = Codes(name)
Field(f, name) == f[CHOOSE i \in DOMAIN f : f[i][1] = Codes(name)][2]

DigitsOnly(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57
RECURSIVE Decimal(_)
Decimal(s) == IF s = <<>> THEN 0 ELSE Decimal(SubSeq(s, 1, Len(s) - 1)) * 10 + s[Len(s)] - 48

\* [ok, v10, status, f, p]
Preamble(b) ==
  LET l == Line(b, 1) IN
  IF ~l.ok THEN Bad
  ELSE IF Len(l.s) < 12 THEN Bad
  ELSE IF SubSeq(l.s, 1, 7) # Codes("HTTP/1.") \/ l.s[9] # SP \/ ~DigitsOnly(SubSeq(l.s, 10, 12)) \/ (Len(l.s) > 12 /\ l.s[IF Len(l.s) > 12 THEN 13 ELSE 1] # SP) THEN Bad
  ELSE LET h == Fields(b, l.p, <<>>) IN
       IF ~h.ok THEN Bad ELSE [ok |-> TRUE, v10 |-> l.s[8] = 48, status |-> Decimal(SubSeq(l.s, 10, 12)), f |-> h.f, p |-> h.p]

HexVal(x) == IF x \in 48..57 THEN x - 48 ELSE IF x \in 97..102 THEN x - 87 ELSE IF x \in 65..70 THEN x - 55 ELSE -1
RECURSIVE Hex(_)
Hex(s) == IF s = <<>> THEN 0 ELSE LET h == Hex(SubSeq(s, 1, Len(s) - 1)) IN
          IF h < 0 \/ HexVal(s[Len(s)]) < 0 THEN -1 ELSE h * 16 + HexVal(s[Len(s)])
\* chunks from i on: [ok, body, trailer]
RECURSIVE Chunks(_, _, _)
Chunks(b, i, body) ==
  LET l == Line(b, i) IN
  IF ~l.ok THEN [ok |-> FALSE, body |-> body, trailer |-> FALSE]
  ELSE LET semi == Find(l.s, 59, 1)
           n == Hex(Trim(IF semi = 0 THEN l.s ELSE SubSeq(l.s, 1, semi - 1)))
       IN IF n < 0 \/ l.s = <<>> THEN [ok |-> FALSE, body |-> body, trailer |-> FALSE]
          ELSE IF n = 0 THEN LET t == Fields(b, l.p, <<>>) IN [ok |-> t.ok, body |-> body, trailer |-> Find(b, CR, l.p) # l.p]
          ELSE LET q == l.p + n IN
               IF Len(b) < q + 1 THEN [ok |-> FALSE, body |-> body \o SubSeq(b, l.p, IF q - 1 < Len(b) THEN q - 1 ELSE Len(b)), trailer |-> FALSE]
               ELSE IF b[q] # CR \/ b[q + 1] # LF THEN [ok |-> FALSE, body |-> body \o SubSeq(b, l.p, q - 1), trailer |-> FALSE]
               ELSE Chunks(b, q + 2, body \o SubSeq(b, l.p, q - 1))

\* the body: [whole, body, loose]; loose: it may be refused as well
Body(b, h, end) ==
  LET rest == SubSeq(b, h.p, Len(b)) IN
  IF h.status = 204 THEN [whole |-> TRUE, body |-> <<>>, loose |-> FALSE]
  ELSE IF ~h.v10 /\ Has(h.f, "transfer-encoding")
  THEN LET c == Chunks(rest, 1, <<>>) IN [whole |-> c.ok, body |-> c.body, loose |-> c.trailer \/ end = "reset"]
  ELSE IF Has(h.f, "content-length")
  THEN LET n == Decimal(Field(h.f, "content-length")) IN
       [whole |-> Len(rest) >= n, body |-> SubSeq(rest, 1, IF n < Len(rest) THEN n ELSE Len(rest)), loose |-> end = "reset"]
  ELSE [whole |-> end # "reset", body |-> rest, loose |-> FALSE]

-----------------------------------------------------------------------------
(* The exchange: [r, layers, asked], r: "whole", "loose", "part" or "error" *)
Redirects == {301, 302, 303, 307, 308}
MaxRedirects == 5
Prefix == Codes("http://")
Scheme(u) == E!StartsWith(u, Prefix)
\* what is asked for
Target(u) == LET r == SubSeq(u, 8, Len(u))
                 s == Find(r, 47, 1)
             IN IF s = 0 THEN <<47>> ELSE SubSeq(r, s, Len(r))
\* locations are complete, or complete paths
Resolve(loc) == IF Scheme(loc) THEN Target(loc) ELSE loc

RECURSIVE Fetch(_, _, _)
Fetch(sc, target, asked) ==
  LET as == {i \in DOMAIN sc.answers : sc.answers[i].target = target}
      now == Append(asked, target)
      err == [r |-> "error", layers |-> <<>>, asked |-> now]
  IN IF as = {} THEN err
     ELSE LET a == sc.answers[CHOOSE i \in as : TRUE]
              h == Preamble(a.sent)
          IN IF ~h.ok THEN err
             ELSE IF h.status \in Redirects /\ Has(h.f, "location")
             THEN IF Len(asked) = MaxRedirects THEN err ELSE Fetch(sc, Resolve(Field(h.f, "location")), now)
             ELSE IF h.status \notin 200..299 THEN err
             ELSE LET b == Body(a.sent, h, a.end) IN
                  [ r |-> IF ~b.whole THEN "part" ELSE IF b.loose THEN "loose" ELSE "whole",
                    layers |-> IF h.status = 204 THEN << [kind |-> "raw", b |-> <<>>, entry |-> <<>>, t |-> <<>>] >> ELSE a.layers,
                    asked |-> now ]
\* the contents the scenario talks about are the ones that are sent
Sound(sc) == \A i \in DOMAIN sc.answers :
  LET a == sc.answers[i]
      h == Preamble(a.sent)
  IN IF ~h.ok THEN TRUE
     ELSE IF h.status \notin 200..299 \/ h.status = 204 THEN TRUE
     ELSE LET b == Body(a.sent, h, a.end) IN
          IF b.whole \/ b.loose THEN (b.whole => b.body = a.layers[1].b) ELSE E!StartsWith(a.layers[1].b, b.body)

-----------------------------------------------------------------------------
(* What is read: [open, n, t, rows, trouble], everything as bytes; trouble: behind *)
(* these rows it fails                                                               *)
None == [open |-> FALSE, n |-> <<>>, t |-> <<>>, rows |-> <<>>, trouble |-> FALSE]
RECURSIVE DcRows(_, _, _, _)
DcRows(b, p, t, rows) ==
  IF p = Len(b) THEN [rows |-> rows, trouble |-> FALSE]
  ELSE LET r == D!ReadRow(b, p, t) IN
       IF ~r.ok THEN [rows |-> rows, trouble |-> TRUE] ELSE DcRows(b, r.p, t, Append(rows, r.row))
DcSource(b) ==
  LET h == D!ReadHeader(b) IN
  IF ~h.ok THEN None
  ELSE LET x == DcRows(b, h.p, h.t, <<>>) IN [open |-> TRUE, n |-> D!Named(h.n), t |-> h.t, rows |-> x.rows, trouble |-> x.trouble]
\* comma, header, first column, nanoseconds
CsvCfg == [delim |-> 44, header |-> "yes", col |-> <<"index", 0>>, fmt |-> <<"epoch", "ns">>, zone |-> "none"]
CsvSource(text) ==
  LET s == C!CsvSource(text, CsvCfg) IN
  IF ~s.open THEN None
  ELSE [ open |-> TRUE, trouble |-> s.trouble, n |-> [i \in DOMAIN s.n |-> C!Utf8Text(s.n[i])], t |-> s.t,
         rows |-> [k \in DOMAIN s.rows |-> [ts |-> C!ToBytes(s.rows[k].ts, 8), v |-> [i \in DOMAIN s.rows[k].v |-> C!DcValue(s.rows[k].v[i])]]] ]

Read(sc, layers) ==
  LET s == E!Decide([users |-> <<>>, trans |-> << [prefix |-> Prefix, fail |-> FALSE, layers |-> layers] >>, csv |-> TRUE],
                    [stdin |-> FALSE, path |-> sc.url, exists |-> FALSE, layers |-> <<>>, auto |-> sc.auto, fmt |-> sc.fmt])
  IN CASE s.by = "error" -> None
       [] s.by = "csv" -> CsvSource(s.ls[s.i].t)
       [] s.by = "dc" -> DcSource(s.ls[s.i].b)

Expect(sc) ==
  LET f == IF ~Scheme(sc.url) THEN [r |-> "error", layers |-> <<>>, asked |-> <<>>]
           ELSE IF sc.refuse THEN [r |-> "error", layers |-> <<>>, asked |-> <<>>]
           ELSE Fetch(sc, Target(sc.url), <<>>)
      src == IF f.r = "error" THEN None ELSE Read(sc, f.layers)
  IN [ asked |-> f.asked, src |-> src,
       good |-> f.r \in {"whole", "loose"} /\ src.open /\ ~src.trouble,   \* it may end well
       cut |-> f.r # "whole",                       \* it may end with an error wherever it is
       trouble |-> ~src.open \/ src.trouble ]       \* or at the end of what can be read

-----------------------------------------------------------------------------
(* One observation at a time *)
VARIABLES st,     \* "start", "rows", "over", "end"
          taken   \* rows so far
Init == st = "start" /\ taken = 0
Header(x, n, t) == st = "start" /\ x.src.open /\ n = x.src.n /\ t = x.src.t /\ st' = "rows" /\ UNCHANGED taken
Row(x, ts, v) ==
  /\ st = "rows" /\ taken < Len(x.src.rows)
  /\ LET r == x.src.rows[IF taken < Len(x.src.rows) THEN taken + 1 ELSE 1] IN ts = r.ts /\ v = r.v
  /\ taken' = taken + 1 /\ UNCHANGED st
Finished(x) == st = "rows" /\ x.good /\ taken = Len(x.src.rows) /\ st' = "over" /\ UNCHANGED taken
\* a row may be read ahead
Failed(x) ==
  /\ st \in {"start", "rows"}
  /\ x.cut \/ (x.trouble /\ taken + 1 >= Len(x.src.rows) /\ (st = "rows" \/ Len(x.src.rows) <= 1))
  /\ st' = "over" /\ UNCHANGED taken
\* header fields that allow the server to answer with something else than all of the contents as they are
Partly == {"range", "if-range", "if-match", "if-none-match", "if-modified-since", "if-unmodified-since", "accept-encoding", "a-im", "te"}
Asked(x, for, with) == /\ st = "over" /\ for = x.asked
                       /\ \A i \in DOMAIN with : \A j \in DOMAIN with[i] : with[i][j] \notin Partly
                       /\ st' = "end" /\ UNCHANGED taken
=============================================================================

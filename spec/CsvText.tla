------------------------------- MODULE CsvText -------------------------------
(***************************************************************************)
(* Text of a csv file as records, and the guesses made from its first lines.*)
(* Texts are sequences of character codes; a code from 2000000 on stands    *)
(* for a byte (code - 2000000) that is not part of valid UTF-8.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Digits

QUOTE == 34
LF == 10
CR == 13
Spaces == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}

Trim(s) == LET k == {i \in DOMAIN s : s[i] \notin Spaces} IN
           IF k = {} THEN <<>> ELSE LET a == CHOOSE i \in k : \A j \in k : i <= j
                                        b == Len(s) - (CHOOSE d \in 0..(Len(s) - 1) : s[Len(s) - d] \notin Spaces /\ \A e \in 0..(d - 1) : s[Len(s) - e] \in Spaces)
                                    IN SubSeq(s, a, b)

-----------------------------------------------------------------------------
(* Records.  A field is quoted if it begins with a quote; in quotes a       *)
(* doubled quote stands for one, what follows the closing quote is kept.    *)
(* CR, LF and CR LF end a record, records without any text are no records.  *)

Start == [recs |-> <<>>, rec |-> <<>>, fld |-> <<>>, mode |-> "record"]
\* modes: "record" at the start of a record, "field" at the start of a field, "in" inside of an
\* unquoted field, "quoted" inside of quotes, "closed" right behind a quote in quotes
EndField(x) == [x EXCEPT !.rec = Append(x.rec, x.fld), !.fld = <<>>, !.mode = "field"]
EndRecord(x) == [recs |-> Append(x.recs, Append(x.rec, x.fld)), rec |-> <<>>, fld |-> <<>>, mode |-> "record"]

Step(x, c, delim) ==
  IF x.mode = "quoted" THEN IF c = QUOTE THEN [x EXCEPT !.mode = "closed"] ELSE [x EXCEPT !.fld = Append(x.fld, c)]
  ELSE IF x.mode = "closed" /\ c = QUOTE THEN [x EXCEPT !.fld = Append(x.fld, c), !.mode = "quoted"]
  ELSE IF x.mode = "record" /\ c \in {CR, LF} THEN x
  ELSE IF x.mode \in {"record", "field"} /\ c = QUOTE THEN [x EXCEPT !.mode = "quoted"]
  ELSE IF c = delim THEN EndField(x)
  ELSE IF c \in {CR, LF} THEN EndRecord(x)
  ELSE [x EXCEPT !.fld = Append(x.fld, c), !.mode = "in"]

Records(text, delim) ==
  LET bom == text # <<>> /\ text[1] = 65279
      x == FoldLeft(LAMBDA y, c : Step(y, c, delim), Start, IF bom THEN Tail(text) ELSE text)
      y == IF x.mode = "record" THEN x ELSE EndRecord(x)
  IN [k \in DOMAIN y.recs |-> [j \in DOMAIN y.recs[k] |-> Trim(y.recs[k][j])]]

IsText(fields) == \A j \in DOMAIN fields : \A i \in DOMAIN fields[j] : fields[j][i] < 2000000

-----------------------------------------------------------------------------
(* Guesses *)

Size(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE IF c < 2000000 THEN 4 ELSE 1

\* byte offset behind every character
Offsets_(text) == LET f[i \in 0..Len(text)] == IF i = 0 THEN 0 ELSE f[i - 1] + Size(text[i]) IN f

\* the complete lines within the first cap bytes (see BufReader), at most the first two
FirstLines(text, cap) ==
  LET small == \A i \in DOMAIN text : text[i] < 128
      off == [i \in 0..Len(text) |-> i]
      pos == IF small THEN off ELSE Offsets_(text)
      lf == {i \in DOMAIN text : text[i] = LF /\ pos[i] <= cap}
      ends == SetToSortSeq(lf, <)
      full == pos[Len(text)] >= cap
      line(a, b) == LET s == SubSeq(text, a, b) IN IF s # <<>> /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
      n == Len(ends)
      from == IF n = 0 THEN 1 ELSE ends[n] + 1
      rest == IF ~full /\ from <= Len(text) THEN <<SubSeq(text, from, Len(text))>> ELSE <<>>
      body == IF full THEN {i \in DOMAIN text : n > 0 /\ i <= ends[n]} ELSE DOMAIN text
  IN IF \E i \in body : text[i] >= 2000000 THEN <<>>
     ELSE [k \in 1..n |-> line(IF k = 1 THEN 1 ELSE ends[k - 1] + 1, ends[k] - 1)] \o rest

\* what the guesses are made from: a byte order mark and lines without any text are part of no record
GuessLines(lines) ==
  LET bom == IF lines = <<>> THEN FALSE ELSE IF lines[1] = <<>> THEN FALSE ELSE lines[1][1] = 65279
      ls == IF bom THEN <<Tail(lines[1])>> \o Tail(lines) ELSE lines
      full(s) == \E i \in DOMAIN s : s[i] # CR
      at == {k \in DOMAIN ls : full(ls[k])}
      first(S) == CHOOSE k \in S : \A j \in S : k <= j
  IN IF at = {} THEN <<>>
     ELSE LET k == first(at) IN
          IF at = {k} THEN <<ls[k]>> ELSE <<ls[k], ls[first(at \ {k})]>>

Count(s, c) == Cardinality({i \in DOMAIN s : s[i] = c})
COMMA == 44
TAB == 9
SPACE == 32
GuessDelimiter(lines) ==
  IF lines = <<>> THEN COMMA
  ELSE LET a == Count(lines[1], COMMA)
           b == Count(lines[1], TAB)
           c == Count(lines[1], SPACE)
       IN IF a >= b /\ a >= c THEN COMMA ELSE IF b >= c THEN TAB ELSE SPACE

Split(s, c) == LET at == SetToSortSeq({i \in DOMAIN s : s[i] = c}, <)
                   n == Len(at)
               IN [k \in 1..(n + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE at[k - 1] + 1, IF k = n + 1 THEN Len(s) ELSE at[k] - 1)]

Low(c) == IF c \in 65..90 THEN c + 32 ELSE c
Lower(s) == [i \in DOMAIN s |-> Low(s[i])]
Signed(s) == s # <<>> /\ s[1] \in {43, 45}
Unsigned(s) == IF Signed(s) THEN Tail(s) ELSE s

\* an integer of 64 bits
IsInteger(s) == LET u == Unsigned(s) IN
                /\ u # <<>> /\ AllDigits(u)
                /\ Le(OfText(u), IF Signed(s) /\ s[1] = 45 THEN MinI64Abs ELSE MaxI64)

\* a decimal number, with an exponent or not
IsMantissa(s) == LET dots == {i \in DOMAIN s : s[i] = 46} IN
                 /\ Cardinality(dots) <= 1
                 /\ \A i \in DOMAIN s : IsDigit(s[i]) \/ s[i] = 46
                 /\ \E i \in DOMAIN s : IsDigit(s[i])
IsNumber(s) == LET u == Lower(Unsigned(s))
                   e == {i \in DOMAIN u : u[i] = 101}
               IN \/ u \in {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>, <<110, 97, 110>>}
                  \/ /\ Cardinality(e) = 0 /\ IsMantissa(u)
                  \/ /\ Cardinality(e) = 1
                     /\ LET i == CHOOSE i \in e : TRUE
                            x == Unsigned(SubSeq(u, i + 1, Len(u)))
                        IN IsMantissa(SubSeq(u, 1, i - 1)) /\ x # <<>> /\ AllDigits(x)

TypeOf(s) == IF IsInteger(s) THEN "integer" ELSE IF IsNumber(s) THEN "number" ELSE "text"
Types(line, delim) == LET p == Split(line, delim) IN [k \in DOMAIN p |-> TypeOf(Trim(p[k]))]
GuessHeader(lines, delim) == IF Len(lines) < 2 THEN FALSE ELSE Types(lines[1], delim) # Types(lines[2], delim)
=============================================================================

------------------------------- MODULE DcFormat ------------------------------
(***************************************************************************)
(* The binary (dc) file format, version 2.                                  *)
(*                                                                          *)
(*   file   = signature(8) version(2) size(4) user-data(size)               *)
(*            count(4) descriptor*count row*                                *)
(*   descriptor = string string hint(4)            name, type, display hint *)
(*   string = size(4) bytes(size)                                           *)
(*   row    = time(8) nulls((count+7)/8) value*    values that are not null *)
(*   nulls: bit k % 8 of byte k / 8 is set if column k is null              *)
(*   value  = big endian number, or                                         *)
(*            size(2) bytes(size), or FFFF size(4) bytes(size)              *)
(*                                                                          *)
(* A header is [n |-> names, t |-> type tags], a row [ts |-> 8 bytes,       *)
(* v |-> values], a value <<tag, bytes>> and <<"N", <<>>>> for null.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Utf8

CONSTANT MaxShort   \* longest string with the short length: 32767

Signature == <<0, 0, 0, 0, 68, 67, 65, 84>>
Version == <<0, 2>>

TypeName == [Z |-> <<90>>, B |-> <<66>>, C |-> <<67>>, D |-> <<68>>, F |-> <<70>>, I |-> <<73>>, J |-> <<74>>, S |-> <<83>>,
             T |-> <<76, 106, 97, 118, 97, 46, 108, 97, 110, 103, 46, 83, 116, 114, 105, 110, 103, 59>>,
             U |-> <<76, 106, 97, 118, 97, 46, 108, 97, 110, 103, 46, 66, 121, 116, 101, 66, 117, 102, 102, 101, 114, 59>>]
Width == [B |-> 1, C |-> 2, D |-> 8, F |-> 4, I |-> 4, J |-> 8, S |-> 2]
Unsupported == {"Z", "U"}
Null == <<"N", <<>>>>

-----------------------------------------------------------------------------
(* writing *)

Bytes4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
Bytes2(n) == <<n \div 256, n % 256>>
Sized(s) == Bytes4(Len(s)) \o s

Descriptor(name, tag) == Sized(name) \o Sized(TypeName[tag]) \o <<255, 255, 255, 255>>

EncodeHeader(h) ==
  Signature \o Version \o Bytes4(0) \o Bytes4(Len(h.n))
    \o FlattenSeq([k \in DOMAIN h.n |-> Descriptor(h.n[k], h.t[k])])

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
NullBytes(v) ==
  [b \in 1..((Len(v) + 7) \div 8) |->
     LET bit(j) == LET c == (b - 1) * 8 + j IN IF c <= Len(v) /\ v[c][1] = "N" THEN Pow2[j] ELSE 0
     IN bit(1) + bit(2) + bit(3) + bit(4) + bit(5) + bit(6) + bit(7) + bit(8)]

EncodeValue(x) ==
  CASE x[1] = "N" -> <<>>
    [] x[1] = "T" -> IF Len(x[2]) <= MaxShort THEN Bytes2(Len(x[2])) \o x[2]
                     ELSE <<255, 255>> \o Bytes4(Len(x[2])) \o x[2]
    [] OTHER -> x[2]

EncodeRow(r) == r.ts \o NullBytes(r.v) \o FlattenSeq([k \in DOMAIN r.v |-> EncodeValue(r.v[k])])

Encode(h, rows) == EncodeHeader(h) \o FlattenSeq([k \in DOMAIN rows |-> EncodeRow(rows[k])])

CanWrite(h) == \A k \in DOMAIN h.t : h.t[k] \notin Unsupported

-----------------------------------------------------------------------------
(* reading: p is the number of bytes consumed so far *)

Has(D, p, n) == p + n <= Len(D)
Part(D, p, n) == SubSeq(D, p + 1, p + n)
Huge == 1073741824
Num4(D, p) == IF D[p + 1] >= 64 THEN Huge ELSE ((D[p + 1] * 256 + D[p + 2]) * 256 + D[p + 3]) * 256 + D[p + 4]

Bad == [ok |-> FALSE]

ReadSized(D, p) ==
  IF ~Has(D, p, 4) THEN Bad
  ELSE LET n == Num4(D, p) IN
       IF ~Has(D, p + 4, n) THEN Bad
       ELSE [ok |-> TRUE, p |-> p + 4 + n, s |-> Part(D, p + 4, n)]

TagsOf(s) == {k \in DOMAIN TypeName : TypeName[k] = s}

RECURSIVE ReadDescriptors(_, _, _, _, _)
ReadDescriptors(D, p, left, n, t) ==
  IF left = 0 THEN [ok |-> TRUE, p |-> p, n |-> n, t |-> t]
  ELSE LET name == ReadSized(D, p) IN
       IF ~name.ok THEN Bad
       ELSE LET type == ReadSized(D, name.p) IN
       IF ~type.ok THEN Bad
       ELSE IF ~Has(D, type.p, 4) THEN Bad
       ELSE LET hint == Part(D, type.p, 4)
                tags == TagsOf(type.s)
            IN IF tags = {} \/ ~IsUtf8(name.s) \/ ~(hint = <<255, 255, 255, 255>> \/ (hint[1] = 0 /\ hint[2] = 0 /\ hint[3] = 0 /\ hint[4] <= 6))
               THEN Bad
               ELSE ReadDescriptors(D, type.p + 4, left - 1, Append(n, name.s), Append(t, CHOOSE x \in tags : TRUE))

RECURSIVE Decimal(_)
Decimal(i) == IF i < 10 THEN <<48 + i>> ELSE Append(Decimal(i \div 10), 48 + (i % 10))
\* columns without a name get one
Named(n) == [k \in DOMAIN n |-> IF n[k] = <<>> THEN <<99, 111, 108, 95>> \o Decimal(k - 1) ELSE n[k]]

ReadHeader(D) ==
  IF ~Has(D, 0, 14) THEN Bad
  ELSE IF Part(D, 0, 8) # Signature \/ Part(D, 8, 2) # Version THEN Bad
  ELSE LET u == Num4(D, 10) IN
       IF ~Has(D, 14 + u, 4) THEN Bad
       ELSE ReadDescriptors(D, 18 + u, Num4(D, 14 + u), <<>>, <<>>)

IsNull(D, p, c) == (D[p + 1 + (c - 1) \div 8] \div Pow2[((c - 1) % 8) + 1]) % 2 = 1

ReadString(D, p) ==
  IF ~Has(D, p, 2) THEN Bad
  ELSE LET long == D[p + 1] = 255 /\ D[p + 2] = 255 IN
       IF ~long /\ D[p + 1] >= 128 THEN Bad
       ELSE IF long /\ ~Has(D, p + 2, 4) THEN Bad
       ELSE LET n == IF long THEN Num4(D, p + 2) ELSE D[p + 1] * 256 + D[p + 2]
                q == IF long THEN p + 6 ELSE p + 2
            IN IF ~Has(D, q, n) THEN Bad
               ELSE LET s == Part(D, q, n) IN
                    IF IsUtf8(s) THEN [ok |-> TRUE, p |-> q + n, x |-> <<"T", s>>] ELSE Bad

\* nulls start at position z
RECURSIVE ReadValues(_, _, _, _, _)
ReadValues(D, p, z, t, v) ==
  LET c == Len(v) + 1 IN
  IF c > Len(t) THEN [ok |-> TRUE, p |-> p, v |-> v]
  ELSE IF IsNull(D, z, c) THEN ReadValues(D, p, z, t, Append(v, Null))
  ELSE IF t[c] \in Unsupported THEN Bad
  ELSE IF t[c] = "T" THEN LET s == ReadString(D, p) IN IF s.ok THEN ReadValues(D, s.p, z, t, Append(v, s.x)) ELSE Bad
  ELSE IF ~Has(D, p, Width[t[c]]) THEN Bad
  ELSE ReadValues(D, p + Width[t[c]], z, t, Append(v, <<t[c], Part(D, p, Width[t[c]])>>))

ReadRow(D, p, t) ==
  LET nb == (Len(t) + 7) \div 8 IN
  IF ~Has(D, p, 8 + nb) THEN Bad
  ELSE LET r == ReadValues(D, p + 8 + nb, p + 8, t, <<>>) IN
       IF r.ok THEN [ok |-> TRUE, p |-> r.p, row |-> [ts |-> Part(D, p, 8), v |-> r.v]] ELSE Bad

-----------------------------------------------------------------------------
(* The reader as a state machine over the bytes D it gets.  broken: behind  *)
(* D there is not the end of the input but a failure.                       *)
VARIABLES st,    \* "start", "rows" or "over"
          at,    \* bytes consumed
          types  \* of the columns

Init == st = "start" /\ at = 0 /\ types = <<>>

Header(D, h) ==
  /\ st = "start"
  /\ LET x == ReadHeader(D) IN
     /\ x.ok
     /\ h.n = Named(x.n) /\ h.t = x.t
     /\ st' = "rows" /\ at' = x.p /\ types' = x.t

Row(D, r) ==
  /\ st = "rows"
  /\ LET x == ReadRow(D, at, types) IN
     /\ x.ok
     /\ x.row = r
     /\ at' = x.p
  /\ UNCHANGED <<st, types>>

Eof(D, broken) ==
  /\ st = "rows"
  /\ at = Len(D) /\ ~broken
  /\ st' = "over" /\ UNCHANGED <<at, types>>

Err(D, broken) ==
  /\ IF st = "start"
     THEN LET x == ReadHeader(D) IN IF x.ok THEN \E k \in DOMAIN x.t : x.t[k] \in Unsupported ELSE TRUE
     ELSE IF st = "rows"
     THEN IF at = Len(D) THEN broken ELSE ~ReadRow(D, at, types).ok
     ELSE FALSE
  /\ st' = "over" /\ UNCHANGED <<at, types>>
=============================================================================

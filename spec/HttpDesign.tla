------------------------------ MODULE HttpDesign -------------------------------
(***************************************************************************)
(* A client that takes the bytes of a response as they come, in pieces of any  *)
(* size, and has to say in the end whether it has got everything: for every     *)
(* framing, every way to cut the contents into chunks and every place where      *)
(* the connection ends.  What it says is what Http.tla reads from all bytes at   *)
(* once; and only without length and chunks it cannot know.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS MaxBody, MaxPiece
VARIABLES frame, parts, closing, wire, cut, pos, at, left, got, verdict
vars == <<frame, parts, closing, wire, cut, pos, at, left, got, verdict>>
H == INSTANCE Http WITH st <- "", taken <- 0
Codes(s) == H!Codes(s)
Crlf == <<13, 10>>

\* contents that look like the framing of chunks
Letter == {48, 13, 10}
Bodies == UNION {[1..k -> Letter] : k \in 0..MaxBody}
\* all ways to cut them
RECURSIVE Cuts(_)
Cuts(b) == IF b = <<>> THEN {<<>>} ELSE UNION {{<<SubSeq(b, 1, k)>> \o r : r \in Cuts(SubSeq(b, k + 1, Len(b)))} : k \in 1..Len(b)}
Num(n) == <<48 + n>>
Chunk(c) == Num(Len(c)) \o Crlf \o c \o Crlf
Preamble(f, close, n) == Codes("HTTP/1.1 200 OK") \o Crlf \o (IF close THEN Codes("Connection: close") \o Crlf ELSE <<>>)
  \o (CASE f = "length" -> Codes("Content-Length: ") \o Num(n) \o Crlf
        [] f = "chunked" -> Codes("Transfer-Encoding: chunked") \o Crlf
        [] f = "none" -> <<>>) \o Crlf
Message(f, close, ps) == LET b == FlattenSeq(ps) IN
  Preamble(f, close, Len(b)) \o (IF f = "chunked" THEN FlattenSeq([i \in DOMAIN ps |-> Chunk(ps[i])]) \o Chunk(<<>>) ELSE b)

Init ==
  /\ frame \in {"length", "chunked", "none"} /\ closing \in BOOLEAN
  /\ \E b \in Bodies : parts \in IF frame = "chunked" THEN Cuts(b) ELSE {<<b>>}
  /\ LET m == Message(frame, closing, parts) IN
     /\ cut \in (Len(Preamble(frame, closing, 0)) - 2)..Len(m)
     /\ wire = SubSeq(m, 1, cut)
  /\ pos = 0 /\ at = "head" /\ left = 0 /\ got = <<>> /\ verdict = ""

Byte == wire[pos + 1]
Go(n, where, l) == pos' = pos + n /\ at' = where /\ left' = l /\ UNCHANGED <<frame, parts, closing, wire, cut, verdict>>
More == verdict = "" /\ pos < Len(wire)
\* byte by byte through the head
InHead == /\ More /\ at = "head"
          /\ IF pos >= 3 /\ SubSeq(wire, pos - 2, pos + 1) = Crlf \o Crlf
             THEN Go(1, CASE frame = "length" -> (IF Len(FlattenSeq(parts)) = 0 THEN "whole" ELSE "data") [] frame = "chunked" -> "size" [] frame = "none" -> "any",
                     IF frame = "length" THEN Len(FlattenSeq(parts)) ELSE 0)
             ELSE Go(1, "head", 0)
          /\ UNCHANGED got
Data == /\ More /\ at \in {"data", "any"}
        /\ \E k \in 1..MaxPiece :
             /\ pos + k <= Len(wire) /\ (at = "data" => k <= left)
             /\ got' = got \o SubSeq(wire, pos + 1, pos + k)
             /\ Go(k, IF at = "any" THEN "any" ELSE IF k < left THEN "data" ELSE IF frame = "length" THEN "whole" ELSE "cr", IF at = "any" THEN 0 ELSE left - k)
Size == More /\ at = "size" /\ Go(1, "sizecr", Byte - 48) /\ UNCHANGED got
SizeCr == More /\ at = "sizecr" /\ Byte = 13 /\ Go(1, "sizelf", left) /\ UNCHANGED got
SizeLf == More /\ at = "sizelf" /\ Byte = 10 /\ Go(1, IF left = 0 THEN "lastcr" ELSE "data", left) /\ UNCHANGED got
Cr == More /\ at = "cr" /\ Byte = 13 /\ Go(1, "lf", 0) /\ UNCHANGED got
Lf == More /\ at = "lf" /\ Byte = 10 /\ Go(1, "size", 0) /\ UNCHANGED got
LastCr == More /\ at = "lastcr" /\ Byte = 13 /\ Go(1, "lastlf", 0) /\ UNCHANGED got
LastLf == More /\ at = "lastlf" /\ Byte = 10 /\ Go(1, "whole", 0) /\ UNCHANGED got
Ended == verdict = "" /\ pos = Len(wire) /\ verdict' = (IF at \in {"whole", "any"} THEN "whole" ELSE "part")
         /\ UNCHANGED <<frame, parts, closing, wire, cut, pos, at, left, got>>
Next == InHead \/ Data \/ Size \/ SizeCr \/ SizeLf \/ Cr \/ Lf \/ LastCr \/ LastLf \/ Ended
Spec == Init /\ [][Next]_vars

Total == Len(Message(frame, closing, parts))
Contents == FlattenSeq(parts)
\* never stuck before the end
Moves == verdict # "" \/ ENABLED Next
Right == verdict # "" =>
  /\ (verdict = "whole") = (cut = Total \/ (frame = "none" /\ at = "any"))
  /\ (verdict = "whole" /\ frame # "none" => got = Contents)
  /\ H!E!StartsWith(Contents, got)
\* and it is what the specification says of all of it
Agrees == verdict # "" =>
  LET h == H!Preamble(wire) IN
  IF ~h.ok THEN verdict = "part"
  ELSE LET b == H!Body(wire, h, "close") IN b.whole = (verdict = "whole") /\ b.body = got
=============================================================================

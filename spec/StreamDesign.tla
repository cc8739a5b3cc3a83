----------------------------- MODULE StreamDesign -----------------------------
(* Why buffers of fixed sizes keep a reader within the bounds of Stream.tla: a     *)
(* chain of buffers around the unpacking of whole units, every one refilled only   *)
(* when it is empty (the previews of both sides are filled completely first), and  *)
(* a parser that is one row ahead of its user.  Everything comes in pieces of any  *)
(* size.  `sent` is where the input is held back.                                  *)
EXTENDS Integers, Sequences
CONSTANTS B1, B2, B3, MaxSent
Inputs == [skip : {0}, hdr : 0..2, len : 1..2, m : 1..2, pre : 0..2, unit : 1..3]
VARIABLES x, sent, taken, used, made, passed, parsed, parsing, want, got, low, high, rows
vars == <<x, sent, taken, used, made, passed, parsed, parsing, want, got, low, high, rows>>
S == INSTANCE Stream WITH RawAhead <- B1, DecAhead <- B2 + B3, OutAhead <- 0, RowsAhead <- 2, HeapRoom <- 0, HeapDrift <- 0
\* taken: read from the input; used: given to the unpacking; made: unpacked; passed: in the second preview or beyond;
\* parsing: in the parser's buffer or beyond; parsed: rows; want, got: rows asked for and handed out
Init == /\ x \in {i \in Inputs : i.pre >= (IF i.hdr > 0 THEN 1 ELSE 0)} /\ sent \in 0..MaxSent
        /\ taken = 0 /\ used = 0 /\ made = 0 /\ passed = 0 /\ parsing = 0 /\ parsed = 0 /\ want = 0 /\ got = 0
        /\ low = 0 /\ high = 0 /\ rows = <<>>
Aux == UNCHANGED <<x, sent, low, high, rows>>
\* what the given part of the input unpacks to
Unpacked(u) == IF u < x.pre THEN 0 ELSE x.hdr + ((u - x.pre) \div x.unit) * x.m * x.len
\* the first preview is filled first
Preview1 == taken < B1
\* the second one then; it asks the unpacking for as much as it has room for
Preview2 == ~Preview1 /\ passed < B2
NeedParse == got < want /\ parsed < got + 2
RowThere == parsing >= S!Dec(x, parsed + 1)
NeedBytes == ~Preview1 /\ ~Preview2 /\ NeedParse /\ ~RowThere
\* the parser's buffer is refilled from what has passed, or else directly
NeedPass == Preview2 \/ (NeedBytes /\ passed = parsing)
NeedUnpack == NeedPass /\ made = passed
NeedRaw == Preview1 \/ (NeedUnpack /\ used = taken)
Refill(room) == \E k \in 1..room : taken + k <= sent /\ taken' = taken + k /\ UNCHANGED <<used, made, passed, parsing, parsed, want, got>>
Take == IF Preview1 THEN Refill(B1 - taken) ELSE NeedRaw /\ Refill(B1)
\* the unpacking uses one byte after the other until something comes of it
Unpack == NeedUnpack /\ used < taken /\ used' = used + 1 /\ made' = Unpacked(used + 1) /\ UNCHANGED <<taken, passed, parsing, parsed, want, got>>
Pass == NeedPass /\ made > passed
        /\ \E k \in 1..(IF Preview2 THEN B2 - passed ELSE B2) : passed + k <= made /\ passed' = passed + k
        /\ UNCHANGED <<taken, used, made, parsing, parsed, want, got>>
Parse1 == NeedBytes /\ passed > parsing /\ \E k \in 1..B3 : parsing + k <= passed /\ parsing' = parsing + k
          /\ UNCHANGED <<taken, used, made, passed, parsed, want, got>>
Parse2 == ~Preview1 /\ ~Preview2 /\ NeedParse /\ RowThere /\ parsed' = parsed + 1 /\ UNCHANGED <<taken, used, made, passed, parsing, want, got>>
Hand == got < want /\ parsed >= got + 2 /\ got' = got + 1 /\ UNCHANGED <<taken, used, made, passed, parsing, parsed, want>>
Ask == got = want /\ want' = want + 1 /\ UNCHANGED <<taken, used, made, passed, parsing, parsed, got>>
Move == Take \/ Unpack \/ Pass \/ Parse1 \/ Parse2 \/ Hand \/ Ask
Next == Move /\ Aux
Spec == Init /\ [][Next]_vars
\* whatever has been read was called for by a row that is due
Bounded == taken <= S!May(x, got)
\* nobody waits for input without need: when nothing more can be done, the rows that are due have come
Stuck == ~ ENABLED Next
Delivered == Stuck => ~ S!Due(x, sent, got + 1)
\* no buffer holds more than its size, the unpacking no more than a unit
Buffers == taken - used <= B1 /\ passed - parsing <= B2 /\ made - passed <= x.hdr + x.m * x.len
===============================================================================

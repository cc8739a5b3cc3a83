----------------------------- MODULE FrameDesign -----------------------------
(***************************************************************************)
(* Reading framed containers (gzip members, zstd and lz4 frames): why a cut  *)
(* anywhere but behind a complete part, and any change of checksummed data,   *)
(* is always noticed by a reader that keeps to the rules below, also when it   *)
(* hands out its output bit by bit.  A stream consists of tokens:              *)
(*   "M" magic and header   "S" skippable frame, complete in one token          *)
(*   data 1..D              "E" end of the frame                                 *)
(*   "C" checksum of the frame's data (if CHECKED)                               *)
(* The reader alternates between getting the next frame and handing out its     *)
(* data; the checksum is verified behind the last data of a frame, before it     *)
(* looks for another frame and before it reports the end.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxFrames, MaxData, D, CHECKED

Data == UNION {[1..n -> 1..D] : n \in 0..MaxData}
Frame(skip, d) == (IF skip THEN << <<"S">> >> ELSE <<>>) \o << <<"M">> >> \o [i \in DOMAIN d |-> <<"D", d[i]>>] \o << <<"E">> >>
                  \o (IF CHECKED THEN << <<"C", d>> >> ELSE <<>>)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))

VARIABLES orig,     \* the frames: sequence of [skip, d]
          stream,   \* what there is to read of them
          damage,   \* <<"none">>, <<"cut", k>> or <<"change", k>>
          pos, cur, out, st
vars == <<orig, stream, damage, pos, cur, out, st>>
Whole == Cat([i \in DOMAIN orig |-> Frame(orig[i].skip, orig[i].d)])
Plain(n) == Cat([i \in 1..n |-> orig[i].d])

Changed(tok) == CASE tok[1] = "D" -> {<<"D", x>> : x \in (1..D) \ {tok[2]}}
                  [] tok[1] = "C" -> {<<"C", <<0>> >>}
                  [] OTHER -> {<<"X">>}
Frames == UNION {[1..n -> [skip : BOOLEAN, d : Data]] : n \in 1..MaxFrames}
Init == /\ orig \in Frames
        /\ \E w \in {Whole} :
             \/ damage = <<"none">> /\ stream = w
             \/ \E k \in 0..Len(w) - 1 : damage = <<"cut", k>> /\ stream = SubSeq(w, 1, k)
             \/ \E k \in 1..Len(w) : \E x \in Changed(w[k]) : damage = <<"change", k>> /\ stream = [w EXCEPT ![k] = x]
        /\ pos = 1 /\ cur = <<>> /\ out = <<>> /\ st = "first"

Eof == pos > Len(stream)
Tok == stream[pos]
Fail == st' = "err" /\ UNCHANGED <<pos, cur, out>>

Next ==
  /\ UNCHANGED <<orig, stream, damage>>
  /\ CASE st \in {"first", "next"} ->
            IF Eof THEN IF st = "first" THEN Fail ELSE st' = "ok" /\ UNCHANGED <<pos, cur, out>>
            ELSE IF Tok = <<"S">> THEN pos' = pos + 1 /\ UNCHANGED <<cur, out, st>>
            ELSE IF Tok = <<"M">> THEN pos' = pos + 1 /\ cur' = <<>> /\ st' = "data" /\ out' = out
            ELSE Fail
       [] st = "data" ->
            IF Eof THEN Fail
            ELSE IF Tok[1] = "D" THEN pos' = pos + 1 /\ cur' = Append(cur, Tok[2]) /\ out' = Append(out, Tok[2]) /\ st' = st
            ELSE IF Tok = <<"E">> THEN pos' = pos + 1 /\ st' = (IF CHECKED THEN "check" ELSE "next") /\ UNCHANGED <<cur, out>>
            ELSE Fail
       [] st = "check" ->
            IF Eof THEN Fail
            ELSE IF Tok = <<"C", cur>> THEN pos' = pos + 1 /\ st' = "next" /\ UNCHANGED <<cur, out>>
            ELSE Fail
       [] OTHER -> FALSE /\ UNCHANGED <<pos, cur, out, st>>
Spec == Init /\ [][Next]_vars

\* number of tokens up to the end of frame n, and up to just in front of the next "M"
End(n) == Len(Cat([i \in 1..n |-> Frame(orig[i].skip, orig[i].d)]))
Boundary(n) == {End(n)} \cup (IF n < Len(orig) /\ orig[n + 1].skip THEN {End(n) + 1} ELSE {})

Undamaged == damage = <<"none">> => (st # "err" /\ (st = "ok" => out = Plain(Len(orig))))
Cuts == damage[1] = "cut" /\ st = "ok" => \E n \in 1..Len(orig) : damage[2] \in Boundary(n) /\ out = Plain(n)
CutsAtBoundaries == damage[1] = "cut" /\ (\E n \in 1..Len(orig) : damage[2] \in Boundary(n)) => st # "err"
Changes == CHECKED /\ damage[1] = "change" => st # "ok"
\* what has been handed out before an error is a prefix of the data, or of changed data that is reported
Prefix == damage[1] # "change" => \E n \in 0..Len(Plain(Len(orig))) : out = SubSeq(Plain(Len(orig)), 1, n)
=============================================================================

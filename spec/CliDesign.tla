------------------------------- MODULE CliDesign -------------------------------
(***************************************************************************)
(* Cli.tla against two machines that are simpler than it is:                   *)
(*  "args"   somebody writes an option after the other, in any of its          *)
(*           spellings, and inputs between them: what is understood is what     *)
(*           was meant, whatever the spelling and the order                    *)
(*  "merge"  sources are read one row at a time, the earliest first: this gives *)
(*           the rows of a run                                                 *)
(***************************************************************************)
EXTENDS Cli
CONSTANTS MaxTokens, MaxRows, Ticks
VARIABLES mode, argv, want, pos, rest, wrong, srcs, range, at, out
vars == <<mode, argv, want, pos, rest, wrong, srcs, range, at, out>>

V == {Codes("s"), Codes("a=b"), <<>>, Codes("-5"), Codes("-")}
Uses == {o \in Options : o.k \in {"output", "granularity", "time-col-name", "epoch", "backtrace"}}
Inputs == {Codes("x"), Codes("-"), Codes("-E"), <<>>, Codes("--")}
\* all ways to write an option with this value
Spelled(o, v) ==
  IF ~o.v THEN {<<Codes("--") \o o.long>>} \cup (IF o.short = <<>> THEN {} ELSE {<<Codes("-") \o o.short>>})
  ELSE {<<Codes("--") \o o.long \o <<EQ>> \o v>>}
       \cup (IF Looks(v) THEN {} ELSE {<<Codes("--") \o o.long, v>>} \cup (IF o.short = <<>> THEN {} ELSE {<<Codes("-") \o o.short, v>>}))
       \cup (IF o.short = <<>> \/ v = <<>> THEN {} ELSE {<<Codes("-") \o o.short \o <<EQ>> \o v>>} \cup (IF v[1] = EQ THEN {} ELSE {<<Codes("-") \o o.short \o v>>}))
\* a flag in front of another option in one argument
Joined == LET e == CHOOSE o \in Options : o.k = "epoch"
              g == CHOOSE o \in Options : o.k = "granularity"
          IN { <<Codes("-E") \o g.short \o v, v>> : v \in {Codes("s"), Codes("ms")} }

Idle == /\ srcs = <<>> /\ range = <<>> /\ at = <<>> /\ out = <<>>
Sources1 == UNION {{s \in [1..k -> Ticks] : \A i \in 1..(k - 1) : s[i] <= s[i + 1]} : k \in 0..MaxRows}
Src(ts, s) == [open |-> TRUE, n |-> <<>>, t |-> <<>>, trouble |-> FALSE, rows |-> [i \in DOMAIN ts |-> [ts |-> DigitsOf(ts[i]), v |-> << <<"T", <<s, i>> >> >>]]]
Init ==
  /\ argv = <<>> /\ want = <<>> /\ pos = <<>> /\ rest = FALSE /\ wrong = FALSE
  /\ \/ mode = "args" /\ Idle
     \/ /\ mode = "merge"
        /\ \E x \in [1..3 -> Sources1], b \in {<<>>} \cup {<<DigitsOf(k)>> : k \in Ticks}, e \in {<<>>} \cup {<<DigitsOf(k)>> : k \in Ticks} :
             srcs = [s \in 1..3 |-> Src(x[s], s)] /\ range = <<b, e>>
        /\ at = [s \in 1..3 |-> 1] /\ out = <<>>

Room(k) == mode = "args" /\ Len(argv) + k <= MaxTokens
GiveOne ==
  \E o \in Uses : \E v \in (IF o.v THEN V ELSE {<<>>}) : \E t \in Spelled(o, v) :
    /\ Room(Len(t)) /\ ~rest
    /\ argv' = argv \o t /\ want' = Append(want, <<o.k, v>>) /\ UNCHANGED <<pos, rest>>
GiveTwo ==
  \E j \in Joined :
    /\ Room(1) /\ ~rest
    /\ argv' = Append(argv, j[1]) /\ want' = want \o << <<"epoch", <<>> >>, <<"granularity", j[2]>> >> /\ UNCHANGED <<pos, rest>>
GiveInput ==
  \E x \in Inputs :
    /\ Room(1) /\ (rest \/ ~Looks(x))
    /\ argv' = Append(argv, x) /\ pos' = Append(pos, x) /\ UNCHANGED <<want, rest>>
GiveDashes == Room(1) /\ ~rest /\ rest' = TRUE /\ argv' = Append(argv, Codes("--")) /\ UNCHANGED <<want, pos>>
GiveNonsense ==
  \E x \in {Codes("--outputs"), Codes("-x"), Codes("--out=1"), Codes("-Ex"), Codes("---")} :
    /\ Room(1) /\ ~rest /\ wrong' = TRUE /\ argv' = Append(argv, x) /\ UNCHANGED <<want, pos, rest>>
Write == (GiveNonsense \/ ((GiveOne \/ GiveTwo \/ GiveInput \/ GiveDashes) /\ UNCHANGED wrong)) /\ UNCHANGED <<mode, srcs, range, at, out>>

Alive(s) == at[s] <= Len(srcs[s].rows)
Head1(s) == srcs[s].rows[at[s]]
Take(s) ==
  /\ mode = "merge" /\ Alive(s)
  /\ \A o \in 1..3 : Alive(o) => Lt(Head1(s).ts, Head1(o).ts) \/ (Head1(s).ts = Head1(o).ts /\ s <= o)
  /\ at' = [at EXCEPT ![s] = @ + 1]
  /\ out' = IF Within(Head1(s).ts, range[1], range[2]) THEN Append(out, Head1(s)) ELSE out
  /\ UNCHANGED <<mode, argv, want, pos, rest, wrong, srcs, range>>
Step == Write \/ \E s \in 1..3 : Take(s)
Spec == Init /\ [][Step]_vars

P == Args(NoArgs, argv)
Understood == mode = "args" /\ ~wrong => P.r = "" /\ ~P.loose /\ P.given = want /\ P.pos = pos
Refused == mode = "args" /\ wrong => P.r = "usage"
RepeatsRefused == mode = "args" /\ ~wrong /\ (\E i, j \in DOMAIN want : i < j /\ want[i][1] = want[j][1]) => BadUsage(P)
\* the last of them without its value
Cut == mode = "args" /\ ~wrong /\ ~rest => \A k \in {"--output", "-o", "--time-col-name", "-Eo"} : Args(NoArgs, Append(argv, Codes(k))).r = "usage"
\* the order of options does not count
Turned == mode = "args" /\ ~wrong /\ argv # <<>> /\ ~BadUsage(P) =>
  LET q == [P EXCEPT !.given = Reverse(@)] IN
  /\ ~BadUsage(q) /\ Unclear(q) = Unclear(P)
  /\ \A k \in {o.k : o \in Uses} : ValOr(q, k, <<0>>) = ValOr(P, k, <<0>>)
  /\ Target(q) = Target(P) /\ OutConfig(q, "UTC") = OutConfig(P, "UTC")

MergeDone == mode = "merge" /\ \A s \in 1..3 : ~Alive(s)
Same == MergeDone => LET m == Merged(srcs, range[1], range[2]) IN
  /\ Len(m) = Len(out)
  /\ \A i \in DOMAIN out : m[i].ts = out[i].ts /\ m[i].v = out[i].v
=============================================================================

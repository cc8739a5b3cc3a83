----------------------------- MODULE DetectDesign -----------------------------
(***************************************************************************)
(* Every decision of Detect.tla for small worlds, against what the decision    *)
(* should come to, stated without its order of steps.                           *)
(***************************************************************************)
EXTENDS Detect, FiniteSets
CONSTANTS MaxUsers, Small
VARIABLES w, n, s
Txt == [kind |-> "raw", b |-> <<97, 44, 98, 10>>, entry |-> <<>>, h |-> "t"]
Bin == [kind |-> "raw", b |-> <<255, 254>>, entry |-> <<>>, h |-> "b"]
Nil == [kind |-> "raw", b |-> <<>>, entry |-> <<>>, h |-> "e"]
DcF == [kind |-> "raw", b |-> DcMagic \o <<1>>, entry |-> <<>>, h |-> "d"]
Old == [kind |-> "raw", b |-> SubSeq(DcMagic, 1, 9) \o <<1>>, entry |-> <<>>, h |-> "o"]
GzOf == [kind |-> "gz", b |-> <<31, 139, 8, 0>>, entry |-> <<>>, h |-> "g"]
ZstOf == [kind |-> "zst", b |-> <<40, 181, 47, 253>>, entry |-> <<>>, h |-> "z"]
ZipOf(e) == [kind |-> "zip", b |-> LocalHeader, entry |-> e, h |-> "p"]
NoZip == [kind |-> "badzip", b |-> EndOfDirectory, entry |-> <<>>, h |-> "p0"]
X == <<120>>
Bases == IF Small THEN {Txt, Bin, DcF} ELSE {Txt, Bin, Nil, DcF, Old}
Contents == {<<b>> : b \in Bases} \cup {<<GzOf, b>> : b \in Bases} \cup {<<ZstOf, GzOf, b>> : b \in {Txt, DcF}}
            \cup {<<ZipOf(e)>> \o l : e \in {X \o Csv, X \o Dc \o Gz, X}, l \in {<<Txt>>, <<GzOf, DcF>>} \cup IF Small THEN {} ELSE {<<DcF>>}} \cup {<<NoZip>>}
Names == {X, X \o Csv, X \o Dc \o Gz, X \o Zip} \cup IF Small THEN {} ELSE {X \o Dc, X \o Gz, X \o Csv \o Gz, X \o Dc \o Zst, X \o Gz \o Csv, X \o <<46, 117>>}
Formats == {Csv, Tail(Csv), Dc \o Gz, <<>>, Csv \o Zip} \cup IF Small THEN {} ELSE Names
User == {[suffix |-> f, magic |-> m, any |-> FALSE, fail |-> FALSE] : f \in {<<>>, Csv} \cup IF Small THEN {} ELSE {<<46, 117>>}, m \in {<<>>, <<97>>} \cup IF Small THEN {} ELSE {<<0, 0>>}}
Users == UNION {[1..k -> User] : k \in 0..MaxUsers}
Trans == {<<>>} \cup {<<[prefix |-> p, fail |-> f, layers |-> <<DcF>>]>> : p \in {X, <<121>>}, f \in IF Small THEN {FALSE} ELSE BOOLEAN}
Worlds == {[users |-> u, trans |-> t, csv |-> c] : u \in Users, t \in Trans, c \in BOOLEAN}
Inputs == {[stdin |-> i, path |-> p, exists |-> e, layers |-> l, auto |-> a, fmt |-> f] :
             i \in BOOLEAN, p \in Names, e \in BOOLEAN, l \in Contents, a \in BOOLEAN, f \in Formats}
Init == /\ w \in Worlds
        /\ n \in {m \in Inputs : (m.auto => m.fmt = <<>>) /\ (m.stdin => m.path = X /\ ~m.exists)}
        /\ s = Start(n)
Next == s.at # "end" /\ s' = Step(w, n, s) /\ UNCHANGED <<w, n>>
Spec == Init /\ [][Next]_<<w, n, s>>

Done == s.at = "end"
\* the transport the path is opened with
IsArchive == ~n.stdin /\ n.exists /\ n.layers[1].kind \in {"zip", "badzip"}
Mine == {k \in DOMAIN w.trans : StartsWith(n.path, w.trans[k].prefix)}
UserOpened == ~n.stdin /\ ~IsArchive /\ Mine # {}
Opened == IF UserOpened THEN ~w.trans[1].fail ELSE n.stdin \/ n.exists
UserTransport == Done /\ UserOpened => IF w.trans[1].fail THEN s.by = "error" ELSE s.ls = w.trans[1].layers
OthersLocal == Done /\ ~UserOpened => s.ls = n.layers
Unopened == Done /\ ~Opened => s.by = "error"
\* an explicit format alone decides
ExplicitAlone == ~n.auto /\ w.trans = <<>> => \A p \in Names : Decide(w, [n EXCEPT !.path = p]).by = Decide(w, n).by
ExplicitContents == Done /\ ~n.auto /\ s.by # "error" => \A l \in Bases :
   Decide(w, [n EXCEPT !.layers = [i \in DOMAIN n.layers |-> IF i < Len(n.layers) THEN n.layers[i] ELSE l]]).by = s.by
\* the user's handlers are preferred
NameTaken(f) == {k \in DOMAIN w.users : w.users[k].suffix # <<>> /\ EndsWith(f, w.users[k].suffix)}
UserFirst == Done /\ s.by \in {"dc", "csv"} /\ ~n.auto => NameTaken(s.f) = {}
UserNamed == Done /\ n.auto /\ s.by \in {"dc", "csv"} /\ s.name.has => NameTaken(s.f) = {}
UserSniffed == Done /\ s.by \in {"dc", "csv"} /\ n.auto /\ s.k > Len(w.users) =>
   \/ s.name.has /\ EndsWith(s.f, IF s.by = "dc" THEN Dc ELSE Csv)
   \/ \A k \in DOMAIN w.users : w.users[k].magic = <<>> \/ ~StartsWith(Bytes(s), w.users[k].magic)
\* the name is asked before the contents, and what it says is enough
NameFirst == Done /\ n.auto /\ s.name.has /\ s.by # "error" /\ w.users = <<>> =>
   /\ EndsWith(s.f, Dc) => s.by = "dc"
   /\ EndsWith(s.f, Csv) /\ w.csv => s.by = "csv"
\* binary before text
BinaryFirst == Done /\ s.by = "csv" /\ n.auto /\ s.name.has /\ ~EndsWith(s.f, Csv) => ~StartsWith(Bytes(s), DcMagic)
\* contents reach a reader unpacked
Unpacked == Done /\ n.auto /\ ~s.un /\ s.by \in {"dc", "csv"} /\ ~(s.name.has /\ \E k \in {Dc, Csv} : EndsWith(s.f, k)) => BySignature(Bytes(s)) = ""
OnlyCsv == Done /\ ~w.csv => s.by # "csv"
\* an error has a reason
Reason == Done /\ s.by = "error" =>
  \/ ~Opened
  \/ s.ls[1].kind = "badzip"
  \/ \E p \in Packings : p[2] # Kind(s) /\ s.name.has /\ EndsWith(s.name.s, p[1])
  \/ ~n.auto
  \/ Kind(s) \in {"zip", "badzip"}
  \/ \A k \in 1..Handlers(w) : ~TakesContents(w, k, Bytes(s))
Inv == UserTransport /\ OthersLocal /\ Unopened /\ UserFirst /\ UserNamed /\ UserSniffed /\ NameFirst /\ BinaryFirst /\ Unpacked /\ OnlyCsv /\ Reason
Alone == ExplicitAlone /\ ExplicitContents
=============================================================================

-------------------------------- MODULE Detect --------------------------------
(***************************************************************************)
(* How an input is opened, unpacked and handed to a reader of its format.     *)
(*                                                                             *)
(* A setup w has the user's handlers and whether csv is read at all:             *)
(*   users  formats of the user: suffix of names taken (<<>>: none), magic        *)
(*          contents start with (<<>>: none), any: takes all contents, fail        *)
(*   trans  transports of the user: prefix of paths taken, fail, what they give     *)
(*   csv    BOOLEAN                                                                  *)
(* An input n is                                                                      *)
(*   stdin  BOOLEAN; path: codes; exists: is a local file; layers: its contents        *)
(*   auto   BOOLEAN; fmt: codes of the explicit format                                  *)
(* Contents are layers, outside to inside: kind, b: the bytes (the first 8192),          *)
(* entry: name inside of an archive, h: names the bytes.  kind "raw": not packed,         *)
(* "zip": archive of one file, "badzip": of another number of files.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
B == INSTANCE BufReader WITH pos <- 0, avail <- 0, inErr <- FALSE, inter <- FALSE

EndsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
StartsWith(s, x) == Len(s) >= Len(x) /\ SubSeq(s, 1, Len(x)) = x
Chop(s, n) == SubSeq(s, 1, Len(s) - n)

Gz == <<46, 103, 122>>
Lz4 == <<46, 108, 122, 52>>
Lzf == <<46, 108, 122, 102>>
Zip == <<46, 122, 105, 112>>
Zst == <<46, 122, 115, 116>>
Dc == <<46, 100, 99>>
Csv == <<46, 99, 115, 118>>
Packings == {<<Gz, "gz">>, <<Lz4, "lz4">>, <<Lzf, "lzf">>, <<Zip, "zip">>, <<Zst, "zst">>}

\* packing a name asks for, and what is left of the name
ByName(f) == LET m == {p \in Packings : EndsWith(f, p[1])}
             IN IF m = {} THEN [kind |-> "", rest |-> f]
                ELSE LET p == CHOOSE p \in m : TRUE IN [kind |-> p[2], rest |-> Chop(f, Len(p[1]))]

\* packing contents show
LocalHeader == <<80, 75, 3, 4>>
EndOfDirectory == <<80, 75, 5, 6>>
BySignature(b) ==
  CASE Len(b) < 4 -> ""
    [] StartsWith(b, <<31, 139, 8>>) -> "gz"
    [] StartsWith(b, <<4, 34, 77, 24>>) -> "lz4"
    [] StartsWith(b, <<76, 90, 52, 66, 108, 111, 99, 107>>) -> "lz4"
    [] StartsWith(b, <<90, 86, 0>>) \/ StartsWith(b, <<90, 86, 1>>) -> "lzf"
    [] StartsWith(b, LocalHeader) -> "zip"
    [] StartsWith(b, <<40, 181, 47, 253>>) -> "zst"
    [] OTHER -> ""
DcMagic == <<0, 0, 0, 0, 68, 67, 65, 84, 0, 2>>
IsText(b) == B!Preview(b, 8192).text

\* last component of a path, [has, s]
RECURSIVE Components(_, _, _)
Components(p, i, cur) ==
  IF i > Len(p) THEN <<cur>>
  ELSE IF p[i] = 47 THEN <<cur>> \o Components(p, i + 1, <<>>) ELSE Components(p, i + 1, Append(cur, p[i]))
FileName(p) ==
  LET cs == SelectSeq(Components(p, 1, <<>>), LAMBDA x : x # <<>> /\ x # <<46>>)
  IN IF cs = <<>> \/ cs[Len(cs)] = <<46, 46>> THEN [has |-> FALSE, s |-> <<>>] ELSE [has |-> TRUE, s |-> cs[Len(cs)]]
NoName == [has |-> FALSE, s |-> <<>>]

-----------------------------------------------------------------------------
(* One decision at a time.  s: at, name, auto, f: what is left of the format or name,  *)
(* ls: layers, i: the one that is outside now, un: something was unpacked, k: handler,  *)
(* by: who reads it in the end                                                           *)
Start(n) == [at |-> "start", name |-> NoName, auto |-> n.auto, f |-> n.fmt, ls |-> n.layers, i |-> 1, un |-> FALSE, k |-> 1, by |-> ""]
Error(s) == [s EXCEPT !.at = "end", !.by = "error"]
By(s, who) == [s EXCEPT !.at = "end", !.by = who]
Bytes(s) == s.ls[s.i].b
Kind(s) == s.ls[s.i].kind

Unpack(s, kind, next) ==
  IF Kind(s) = kind /\ kind # "zip" THEN [s EXCEPT !.i = s.i + 1, !.un = TRUE, !.at = next]
  ELSE IF kind = "lzf" /\ Bytes(s) = <<>> THEN [s EXCEPT !.un = TRUE, !.at = next]
  ELSE Error(s)

\* handlers in order of preference: the user's, dc, csv
Handlers(w) == Len(w.users) + IF w.csv THEN 2 ELSE 1
Who(w, k) == IF k <= Len(w.users) THEN "user" \o ToString(k) ELSE IF k = Len(w.users) + 1 THEN "dc" ELSE "csv"
TakesName(w, k, f) ==
  IF k <= Len(w.users) THEN w.users[k].suffix # <<>> /\ EndsWith(f, w.users[k].suffix)
  ELSE EndsWith(f, IF k = Len(w.users) + 1 THEN Dc ELSE Csv)
TakesContents(w, k, b) ==
  IF k <= Len(w.users) THEN w.users[k].any \/ (w.users[k].magic # <<>> /\ StartsWith(b, w.users[k].magic))
  ELSE IF k = Len(w.users) + 1 THEN StartsWith(b, DcMagic) ELSE IsText(b)

Step(w, n, s) ==
  CASE s.at = "start" ->
         IF n.stdin THEN [s EXCEPT !.at = "opened"]
         ELSE IF n.exists /\ (StartsWith(Bytes(s), LocalHeader) \/ StartsWith(Bytes(s), EndOfDirectory))
         THEN \* local archives are never left to others
              IF Kind(s) # "zip" THEN Error(s)
              ELSE [s EXCEPT !.at = "opened", !.i = 2, !.name = [has |-> TRUE, s |-> s.ls[1].entry],
                             !.f = IF ~s.auto /\ EndsWith(s.f, Zip) THEN Chop(s.f, 4) ELSE s.f]
         ELSE [s EXCEPT !.at = "transport", !.name = FileName(n.path), !.k = 1]
    [] s.at = "transport" ->
         IF s.k <= Len(w.trans)
         THEN LET t == w.trans[s.k] IN
              IF ~StartsWith(n.path, t.prefix) THEN [s EXCEPT !.k = s.k + 1]
              ELSE IF t.fail THEN Error(s) ELSE [s EXCEPT !.at = "opened", !.ls = t.layers]
         ELSE IF n.exists THEN [s EXCEPT !.at = "opened"] ELSE Error(s)
    [] s.at = "opened" ->
         IF ~s.auto THEN [s EXCEPT !.at = "unpack", !.f = IF StartsWith(s.f, <<46>>) THEN s.f ELSE <<46>> \o s.f]
         ELSE IF s.name.has THEN [s EXCEPT !.at = "unpack", !.f = s.name.s]
         ELSE [s EXCEPT !.at = "signature"]
    [] s.at = "unpack" ->
         LET p == ByName(s.f)
             s2 == [s EXCEPT !.f = p.rest, !.k = 1]
         IN IF p.kind = "" THEN [s2 EXCEPT !.at = "name"] ELSE Unpack(s2, p.kind, "name")
    [] s.at = "name" ->
         IF s.k <= Handlers(w)
         THEN IF TakesName(w, s.k, s.f) THEN By(s, Who(w, s.k)) ELSE [s EXCEPT !.k = s.k + 1]
         ELSE IF ~s.auto THEN Error(s)
         ELSE [s EXCEPT !.at = IF s.un THEN "contents" ELSE "signature", !.k = 1]
    [] s.at = "signature" ->
         LET kind == BySignature(Bytes(s)) IN
         IF kind = "" THEN [s EXCEPT !.at = "contents", !.k = 1] ELSE Unpack([s EXCEPT !.k = 1], kind, "contents")
    [] s.at = "contents" ->
         IF s.k > Handlers(w) THEN Error(s)
         ELSE IF TakesContents(w, s.k, Bytes(s)) THEN By(s, Who(w, s.k)) ELSE [s EXCEPT !.k = s.k + 1]

RECURSIVE Run(_, _, _)
Run(w, n, s) == IF s.at = "end" THEN s ELSE Run(w, n, Step(w, n, s))
Decide(w, n) == Run(w, n, Start(n))
=============================================================================

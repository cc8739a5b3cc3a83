------------------------------ MODULE MultiFile -----------------------------
(***************************************************************************)
(* A directory as input: its files are read one after the other, in         *)
(* byte-wise order of their names, and every row is aligned to the columns  *)
(* of the first file.                                                       *)
(*                                                                          *)
(* A scenario sc has  files : set-like sequence of                          *)
(*   [name : bytes, kind : "file" | "dir" | ..., n : names, t : types,            *)
(*    rows : Seq([ts, v]), fail : 0-based position of a row whose reading   *)
(*    fails or -1, bad : opening the file fails]                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT Focus
On(S) == Focus = "ALL" \/ Focus \in S

RECURSIVE LexLess(_, _)
LexLess(a, b) == IF b = <<>> THEN FALSE
                 ELSE IF a = <<>> THEN TRUE
                 ELSE IF a[1] # b[1] THEN a[1] < b[1]
                 ELSE LexLess(Tail(a), Tail(b))

\* what is read: only the files directly in the directory
InOrder(sc) == SortSeq(SelectSeq(sc.files, LAMBDA f : f.kind \in {"file", "link", "hard"}),
                       LAMBDA f, g : LexLess(f.name, g.name))

-----------------------------------------------------------------------------
(* Alignment of columns.  An assignment maps every column of the first file *)
(* to a column of the other one that has the same name, no column twice.    *)
(* There is at most one unless names are repeated.                          *)

RECURSIVE Assignments(_, _, _)
Assignments(ref, new, used) ==   \* ref, new: sequences of names
  IF ref = <<>> THEN {<<>>}
  ELSE LET c == {j \in DOMAIN new : j \notin used /\ new[j] = ref[1]}
           \* behind this column: only repeated names leave a choice
       IN UNION {{<<j>> \o m : m \in Assignments(Tail(ref), new, used \cup {j})} : j \in c}

TypesFit(refT, newT, m) == \A i \in DOMAIN m : refT[i] = newT[m[i]]

Aligned(v, m) == [i \in DOMAIN m |-> v[m[i]]]

\* all assignments, those that also fit the types, and whether the file may be refused
Plan(ref, f) ==
  LET all == Assignments(ref.n, f.n, {})
      fit == {m \in all : TypesFit(ref.t, f.t, m)}
  IN [fit |-> fit, mayFail |-> all = {} \/ fit # all]

Expect(sc) ==
  LET fs == InOrder(sc)
      ref == IF fs = <<>> THEN [n |-> <<>>, t |-> <<>>] ELSE [n |-> fs[1].n, t |-> fs[1].t]
  IN [ files |-> fs, hdr |-> ref,
       plan |-> [k \in DOMAIN fs |-> IF k = 1 THEN [fit |-> {[i \in DOMAIN ref.n |-> i]}, mayFail |-> FALSE]
                                     ELSE Plan(ref, fs[k])] ]

-----------------------------------------------------------------------------
VARIABLES
  cur,    \* number of the file that is open, 0 before the first one
  pos,    \* rows of it that were delivered
  maps,   \* assignments of its columns that agree with the rows delivered so far
  over    \* "" while running, then "ok" or "err"

Init(sc, X) == cur = 0 /\ pos = 0 /\ maps = {} /\ over = ""

Exhausted(X) == IF cur = 0 THEN TRUE ELSE X.files[cur].fail = -1 /\ pos = Len(X.files[cur].rows)

\* file with this name is opened
Open(sc, X, name) ==
  /\ over = ""
  /\ IF cur # 0 /\ X.files[cur].name = name /\ pos = 0
     THEN UNCHANGED <<cur, pos, maps>>   \* opened again before it is read
     ELSE /\ Exhausted(X)
          /\ cur < Len(X.files)
          /\ X.files[cur + 1].name = name
          /\ cur' = cur + 1 /\ pos' = 0 /\ maps' = X.plan[cur + 1].fit
  /\ UNCHANGED over

\* the directory's header, known as soon as its first file is open
Header(sc, X, h) ==
  /\ h = X.hdr
  /\ cur = (IF X.files = <<>> THEN 0 ELSE 1)
  /\ UNCHANGED <<cur, pos, maps, over>>

\* a row is returned
Row(sc, X, ts, v) ==
  /\ over = ""
  /\ cur # 0
  /\ pos < Len(X.files[cur].rows)
  /\ X.files[cur].fail # pos
  /\ LET r == X.files[cur].rows[pos + 1] IN
     /\ r.ts = ts
     /\ IF On({"C12"})
        THEN LET ok == {m \in maps : Aligned(r.v, m) = v}
             IN ok # {} /\ maps' = ok
        ELSE UNCHANGED maps
  /\ pos' = pos + 1
  /\ UNCHANGED <<cur, over>>

Eof(sc, X) ==
  /\ over = "" \/ over = "ok"
  /\ Exhausted(X)
  /\ cur = Len(X.files)
  /\ (On({"C12"}) /\ cur # 0) => maps # {}
  /\ over' = "ok" /\ UNCHANGED <<cur, pos, maps>>

\* the run fails: at a row that cannot be read, or at a file that cannot be opened or aligned
Err(sc, X, id) ==
  /\ over = ""
  /\ \/ /\ cur # 0 /\ X.files[cur].fail = pos
        /\ id = "f" \o ToString(X.files[cur].id)
     \/ /\ cur # 0 /\ X.files[cur].bad /\ pos = 0
        /\ id = "o" \o ToString(X.files[cur].id)
     \/ /\ cur # 0 /\ X.plan[cur].mayFail /\ pos = 0
  /\ over' = "err" /\ UNCHANGED <<cur, pos, maps>>
=============================================================================

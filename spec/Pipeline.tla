------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* The processing pipeline of chopper: time-ordered inputs are merged and   *)
(* driven through a graph of chains.  This module is the abstract           *)
(* specification: what every output must observe, as a set of actions that  *)
(* accept or refuse observable events (rows read from inputs, headers, rows *)
(* and flushes arriving at outputs, failures, the end of the run).          *)
(*                                                                          *)
(* It is used twice: Driver.tla (the design, an implementation-shaped       *)
(* model) runs in lock step with it, and PipelineTrace.tla feeds it the     *)
(* events recorded from the real code.                                      *)
(*                                                                          *)
(* A scenario sc is a record                                                *)
(*   sources : sequence of [cols : Seq([n : name, t : type tag]),           *)
(*                          rows : Seq([ts : rank, v : Seq(value)])]        *)
(*   chains  : sequence of chains, a chain is a sequence of nodes           *)
(*   begin, end : ranks, 0 meaning "not given"                              *)
(* Names are sequences of character codes, values are <<tag, rank, ident>>  *)
(* where order and equality within a tag are those of rank.  Every row has  *)
(* a "code" (v[1], changed by transforming nodes) and an "org" (v[2], the   *)
(* number of the input row, never changed; rows of one input that have the  *)
(* same number are equal in everything, also their time), unless the        *)
(* scenario is "plain": then rows hold anything, also nothing at all, they   *)
(* are told apart by their time and values only.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANT Focus      \* the property being decided ("ALL": all of them)
On(S) == Focus = "ALL" \/ Focus \in S

-----------------------------------------------------------------------------
(* Values, names, headers *)

NaN == 1999999999
SameKind(a, b) == a[1] = b[1]
ValEq(a, b) == /\ SameKind(a, b)
               /\ a[2] = b[2]
               /\ ~(a[1] \in {"D", "F"} /\ a[2] = NaN)
ValGt(a, b) == /\ SameKind(a, b)
               /\ ~(a[1] \in {"D", "F"} /\ (a[2] = NaN \/ b[2] = NaN))
               /\ a[2] > b[2]

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
SameName(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Lower(a[i]) = Lower(b[i])

\* 0 if there is no such column, otherwise the first one
ColIdx(h, name) ==
  LET M == {i \in DOMAIN h.n : SameName(h.n[i], name)}
  IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j

SourceHeader(src) == [n |-> [i \in DOMAIN src.cols |-> src.cols[i].n],
                      t |-> [i \in DOMAIN src.cols |-> src.cols[i].t]]

\* effect of a node on the header; the node must be applicable
HdrAfter(nd, h) ==
  CASE nd.k = "del" -> LET i == ColIdx(h, nd.col)
                       IN [n |-> RemoveAt(h.n, i), t |-> RemoveAt(h.t, i)]
    [] nd.k = "add" -> [n |-> Append(h.n, nd.col), t |-> Append(h.t, nd.t)]
    [] OTHER -> h

Applicable(nd, h) == nd.k \in {"del", "eq", "gt"} => ColIdx(h, nd.col) # 0

Code(v) == v[1][2]
\* what an output tells about the input row that a row r comes from
Key(sc, r) == IF "plain" \in DOMAIN sc THEN r.ts ELSE r.v[2][2]
WithCode(v, c) == [v EXCEPT ![1] = <<"J", c, 0>>]

\* effect of a node on a row: the rows it produces, in order
RowsAfter(nd, h, v) ==
  CASE nd.k = "mut"  -> <<WithCode(v, (Code(v) * 7 + nd.x) % 10007)>>
    [] nd.k = "dup"  -> [j \in 1..nd.x |-> WithCode(v, (Code(v) * 5 + j) % 10007)]
    [] nd.k = "fan"  -> [j \in 1..(Code(v) % nd.x) |-> WithCode(v, (Code(v) * 5 + j) % 10007)]
    [] nd.k = "drop" -> IF Code(v) % nd.x = 0 THEN <<>> ELSE <<v>>
    [] nd.k \in {"rep", "late"} -> [j \in 1..nd.x |-> v]
    [] nd.k = "add"  -> <<Append(v, nd.val)>>
    [] nd.k = "eq"   -> IF ValEq(v[ColIdx(h, nd.col)], nd.val) THEN <<v>> ELSE <<>>
    [] nd.k = "gt"   -> IF ValGt(v[ColIdx(h, nd.col)], nd.val) THEN <<v>> ELSE <<>>
    [] nd.k = "del"  -> <<RemoveAt(v, ColIdx(h, nd.col))>>
    [] OTHER         -> <<v>>

\* ... and the time of the j-th of them: a step may move rows to other times
TsAfter(nd, ts, j) ==
  IF nd.k = "late" THEN LET to == ts + nd.by * (j - 1) IN IF to > nd.top THEN nd.top ELSE IF to < 1 THEN 1 ELSE to
  ELSE ts

-----------------------------------------------------------------------------
(* What a header and a row entering chain c at node n lead to *)

RECURSIVE HdrVisits(_, _, _, _)
HdrVisits(ch, c, n, h) ==
  IF n > Len(ch[c]) THEN <<>>
  ELSE LET nd == ch[c][n] IN
    CASE nd.k = "rec"   -> <<[k |-> "hdr", x |-> nd.s, h |-> h]>> \o HdrVisits(ch, c, n + 1, h)
      [] nd.k = "msink" -> <<[k |-> "arr", x |-> c, h |-> h]>> \o HdrVisits(ch, c, n + 1, h)
      [] nd.k = "merge" -> HdrVisits(ch, nd.to, 1, h) \o HdrVisits(ch, c, n + 1, h)
      [] nd.k = "split" -> FlattenSeq([i \in DOMAIN nd.to |-> HdrVisits(ch, nd.to[i], 1, h)])
                             \o HdrVisits(ch, c, n + 1, h)
      [] OTHER -> IF Applicable(nd, h) THEN HdrVisits(ch, c, n + 1, HdrAfter(nd, h))
                  ELSE <<[k |-> "bad", x |-> c, h |-> h]>>

RECURSIVE Deliver(_, _, _, _, _, _)
Deliver(ch, c, n, h, v, ts) ==
  IF n > Len(ch[c]) THEN <<>>
  ELSE LET nd == ch[c][n] IN
    CASE nd.k = "rec"   -> <<[s |-> nd.s, v |-> [v |-> v, ts |-> ts]]>> \o Deliver(ch, c, n + 1, h, v, ts)
      [] nd.k = "merge" -> Deliver(ch, nd.to, 1, h, v, ts) \o Deliver(ch, c, n + 1, h, v, ts)
      [] nd.k = "split" -> FlattenSeq([i \in DOMAIN nd.to |-> Deliver(ch, nd.to[i], 1, h, v, ts)])
                             \o Deliver(ch, c, n + 1, h, v, ts)
      [] OTHER -> LET vs == RowsAfter(nd, h, v)
                      hh == HdrAfter(nd, h)
                  IN FlattenSeq([j \in DOMAIN vs |-> Deliver(ch, c, n + 1, hh, vs[j], TsAfter(nd, ts, j))])

-----------------------------------------------------------------------------
(* Expectations for a whole scenario *)

AllHdrVisits(sc) ==
  FlattenSeq([i \in DOMAIN sc.sources |-> HdrVisits(sc.chains, i, 1, SourceHeader(sc.sources[i]))])

InRange(sc, ts) == (sc.begin = 0 \/ ts >= sc.begin) /\ (sc.end = 0 \/ ts < sc.end)

\* processing order of two input rows: time, then input, then position
Before(a, b) == \/ a.ts < b.ts
                \/ a.ts = b.ts /\ a.src < b.src
                \/ a.ts = b.ts /\ a.src = b.src /\ a.idx < b.idx

RefRows(sc) ==
  LET rowsOf(i) == LET rs == sc.sources[i].rows
                   IN [j \in DOMAIN rs |-> [ts |-> rs[j].ts, src |-> i, idx |-> j, v |-> rs[j].v]]
      all == FlattenSeq([i \in DOMAIN sc.sources |-> rowsOf(i)])
  IN SortSeq(SelectSeq(all, LAMBDA r : InRange(sc, r.ts)), Before)

Sinks(sc) == UNION {{nd.s : nd \in {x \in Range(sc.chains[c]) : x.k = "rec"}} : c \in DOMAIN sc.chains}

\* everything the actions below need to know about a scenario, computed once
Expect(sc) ==
  LET visits == AllHdrVisits(sc)
      arr == {x \in Range(visits) : x.k = "arr"}
      bad == \/ \E x \in Range(visits) : x.k = "bad"
             \/ \E x, y \in arr : x.x = y.x /\ x.h # y.h
      hv == {x \in Range(visits) : x.k = "hdr"}
      fed == {x.x : x \in hv}
      ref == IF bad THEN <<>> ELSE RefRows(sc)
      \* dl[p]: what the p-th input row leads to
      dl == [p \in DOMAIN ref |->
               Deliver(sc.chains, ref[p].src, 1, SourceHeader(sc.sources[ref[p].src]), ref[p].v, ref[p].ts)]
      ofSink(p, s) == LET q == SelectSeq(dl[p], LAMBDA d : d.s = s)
                      IN [j \in DOMAIN q |-> q[j].v]
  IN [ bad |-> bad,
       \* no step moves rows to other times
       keep |-> \A c \in DOMAIN sc.chains : \A nd \in Range(sc.chains[c]) : nd.k # "late",
       sinks |-> Sinks(sc),
       fed |-> fed,
       hdr |-> [s \in fed |-> (CHOOSE x \in hv : x.x = s).h],
       ref |-> [p \in DOMAIN ref |-> [ts |-> ref[p].ts, src |-> ref[p].src, idx |-> ref[p].idx]],
       \* input rows (by their keys) -> positions in processing order
       pos |-> [o \in {Key(sc, ref[p]) : p \in DOMAIN ref} |->
                  {p \in DOMAIN ref : Key(sc, ref[p]) = o}],
       rem |-> [s \in Sinks(sc) |-> [p \in DOMAIN ref |-> ofSink(p, s)]],
       \* positions of the rows of source i that reach some output
       seen |-> [i \in DOMAIN sc.sources |->
                   {p \in DOMAIN ref : ref[p].src = i /\ dl[p] # <<>>}] ]

-----------------------------------------------------------------------------
(* The observer.  X is Expect(sc) of the scenario that is running.          *)

VARIABLES
  rem,     \* rem[s][p]: rows still owed to output s for input row p
  last,    \* last[s]: position of the input row that output s received last
  hd,      \* outputs that have their header
  dirty,   \* outputs that received rows after their last flush
  flushed, \* outputs that were flushed
  nread,   \* nread[i]: rows read from input i
  atEnd,   \* inputs that reported their end
  fail,    \* the first failure, "" if there was none
  any,     \* some output has received a row
  over     \* the run has ended
ovars == <<rem, last, hd, dirty, flushed, nread, atEnd, fail, any, over>>

ObsInit(sc, X) ==
  /\ rem = X.rem
  /\ last = [s \in X.sinks |-> 0]
  /\ hd = {} /\ dirty = {} /\ flushed = {}
  /\ nread = [i \in DOMAIN sc.sources |-> 0]
  /\ atEnd = {}
  /\ fail = ""
  /\ any = FALSE
  /\ over = FALSE

Exact == {"C03", "C04", "C10"}   \* properties that fix the rows of an output in order

Settled(X, p) == \A s \in X.sinks : rem[s][p] = <<>>

\* which of the input rows numbered o has led to the row v that output s gets now; it does not matter
\* which one of equal rows
Origin(X, s, o, v) ==
  LET open == {p \in X.pos[o] : rem[s][p] # <<>>}
      fits == {p \in open : v \in {rem[s][p][j].v : j \in DOMAIN rem[s][p]}}
      first(S) == CHOOSE p \in S : \A q \in S : p <= q
  IN IF fits # {} THEN first(fits) ELSE IF open # {} THEN first(open) ELSE CHOOSE p \in X.pos[o] : \A q \in X.pos[o] : p >= q

\* reading from input i returned a row
PastEnd(sc, i) == nread[i] > 0 /\ sc.end # 0 /\ sc.sources[i].rows[nread[i]].ts >= sc.end
ReadRow(sc, X, i) ==
  /\ On({"C09"}) => ~PastEnd(sc, i)
  /\ On({"C09"}) =>
       LET unresolved == {p \in X.seen[i] : X.ref[p].idx <= nread[i] /\ ~Settled(X, p)}
       IN Cardinality(unresolved) <= 1
  /\ nread' = [nread EXCEPT ![i] = @ + 1]
  /\ UNCHANGED <<rem, last, hd, dirty, flushed, atEnd, fail, any, over>>

ReadEof(sc, X, i) ==
  /\ On({"C09"}) => ~PastEnd(sc, i)
  /\ atEnd' = atEnd \cup {i}
  /\ UNCHANGED <<rem, last, hd, dirty, flushed, nread, fail, any, over>>

ReadErr(sc, X, i) ==
  \* everything up to the last row of i that was read has been delivered
  /\ On({"C08"}) =>
       LET mine == {p \in DOMAIN X.ref : X.ref[p].src = i /\ X.ref[p].idx <= nread[i]}
       IN \A q \in mine : \A p \in 1..q : Settled(X, p)
  /\ fail' = IF fail = "" THEN "r" \o ToString(i) ELSE fail
  /\ UNCHANGED <<rem, last, hd, dirty, flushed, nread, atEnd, any, over>>

GotHeader(sc, X, s, h) ==
  /\ (On({"C06"}) /\ ~X.bad) => s \notin hd /\ s \in X.fed /\ h = X.hdr[s]
  /\ hd' = hd \cup {s}
  /\ UNCHANGED <<rem, last, dirty, flushed, nread, atEnd, fail, any, over>>

TypeFits(v, t) == v[1] \in {t, "N"}

\* output s received the row v, made from the input row numbered o; k rows were handed over at once
GotRow(sc, X, s, ts, o, v, k) ==
  LET p == Origin(X, s, o, v)
      ok(j) == rem[s][p][j] = [v |-> v, ts |-> ts]
  IN
  /\ On({"C06"}) => /\ ~X.bad /\ s \in hd
                    /\ Len(v) = Len(X.hdr[s].n)
                    /\ \A j \in DOMAIN v : TypeFits(v[j], X.hdr[s].t[j])
  /\ On({"C08"}) => fail = ""
  /\ On({"C04"}) => k = 1
  /\ o \in DOMAIN X.pos
  /\ On({"C01"}) => p >= last[s] /\ ((X.keep /\ last[s] # 0) => X.ref[last[s]].ts <= ts)
  /\ (On({"C01", "C02", "C03", "C04", "C05", "C10"}) /\ X.keep) => ts = X.ref[p].ts
  /\ IF On(Exact)
     THEN /\ p # last[s] => (IF last[s] = 0 THEN TRUE ELSE rem[s][last[s]] = <<>>)
          /\ rem[s][p] # <<>>
          /\ ok(1)
          /\ rem' = [rem EXCEPT ![s][p] = Tail(@)]
     ELSE IF On({"C02", "C05"})
     THEN \E j \in DOMAIN rem[s][p] :
            /\ ok(j) /\ \A m \in 1..(j - 1) : ~ok(m)
            /\ rem' = [rem EXCEPT ![s][p] = RemoveAt(@, j)]
     ELSE rem' = IF rem[s][p] = <<>> THEN rem ELSE [rem EXCEPT ![s][p] = Tail(@)]
  /\ last' = [last EXCEPT ![s] = p]
  /\ dirty' = dirty \cup {s}
  /\ any' = TRUE
  /\ UNCHANGED <<hd, flushed, nread, atEnd, fail, over>>

\* output s reported a failure instead of taking a row made from input row o
WriteErr(sc, X, s, o) ==
  /\ On({"C08"}) => o \in DOMAIN X.pos /\ \A p \in 1..(Origin(X, s, o, <<>>) - 1) : Settled(X, p)
  /\ fail' = IF fail = "" THEN "w" \o ToString(s) ELSE fail
  /\ UNCHANGED <<rem, last, hd, dirty, flushed, nread, atEnd, any, over>>

FlushOk(sc, X, s) ==
  /\ dirty' = dirty \ {s}
  /\ flushed' = flushed \cup {s}
  /\ UNCHANGED <<rem, last, hd, nread, atEnd, fail, any, over>>

FlushErr(sc, X, s) ==
  /\ fail' = IF fail = "" THEN "f" \o ToString(s) ELSE fail
  /\ UNCHANGED <<rem, last, hd, dirty, flushed, nread, atEnd, any, over>>

ReadOut(sc, i) == i \in atEnd \/ PastEnd(sc, i)

EndOk(sc, X) ==
  /\ fail = ""
  /\ ~X.bad
  /\ On({"C02", "C03", "C04", "C05", "C10"}) => \A s \in X.fed : \A p \in DOMAIN X.ref : rem[s][p] = <<>>
  /\ On({"C02", "C08"}) => \A i \in DOMAIN sc.sources : ReadOut(sc, i)
  /\ On({"C05", "C06"}) => hd = X.fed
  /\ On({"C05", "C07"}) => X.fed \subseteq flushed
  /\ On({"C07"}) => dirty \cap X.fed = {}
  /\ over' = TRUE
  /\ UNCHANGED <<rem, last, hd, dirty, flushed, nread, atEnd, fail, any>>

\* id identifies the failure that the returned error reports
EndErr(sc, X, id) ==
  /\ X.bad \/ fail # ""
  /\ (On({"C06", "C10"}) /\ X.bad) => ~any
  /\ (On({"C07", "C08"}) /\ ~X.bad) => id = fail
  /\ over' = TRUE
  /\ UNCHANGED <<rem, last, hd, dirty, flushed, nread, atEnd, fail, any>>
=============================================================================

------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The design of the driver, shaped like driver.rs: one look-ahead row per  *)
(* input, the earliest row is pushed depth first through the graph, then    *)
(* its input is advanced.  Every read, write and flush may fail.            *)
(*                                                                          *)
(* Each step that is observable is taken together with the corresponding    *)
(* action of Pipeline.tla.  A step the abstract specification refuses, or a *)
(* run that ends when it should not, shows up as a deadlock.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils, SequencesExt

CONSTANT Faults      \* subset of {"r", "w", "f"}: the kinds of failure that may happen

Scen == TLCEval(ndJsonDeserialize(IOEnv.SCEN))

VARIABLES rem, last, hd, dirty, flushed, nread, atEnd, fail, any, over
P == INSTANCE Pipeline WITH Focus <- "ALL"

X == TLCEval([k \in DOMAIN Scen |-> P!Expect(Scen[k])])

VARIABLES
  t,     \* the scenario that is run
  ph,    \* "hdr", "fill", "loop", "work", "adv", "err", "done"
  cur,   \* the input that is being read or whose row is being processed
  buf,   \* buf[i]: position of the look-ahead row of input i, 0 if it is finished
  stk,   \* what is left to do for the row or the flush in progress, first thing first
  err    \* the error that is returned
dvars == <<t, ph, cur, buf, stk, err>>
ovars == <<rem, last, hd, dirty, flushed, nread, atEnd, fail, any, over>>
vars == <<t, ph, cur, buf, stk, err, rem, last, hd, dirty, flushed, nread, atEnd, fail, any, over>>

sc == Scen[t]
x == X[t]
Srcs == DOMAIN sc.sources
Row(i, k) == sc.sources[i].rows[k]

Init == /\ t \in DOMAIN Scen
        /\ ph = "hdr" /\ cur = 1 /\ stk = <<>> /\ err = ""
        /\ buf = [i \in Srcs |-> 0]
        /\ P!ObsInit(sc, x)

Quiet == UNCHANGED ovars

-----------------------------------------------------------------------------
(* headers *)
Headers ==
  /\ ph = "hdr"
  /\ IF x.bad
     THEN /\ ph' = "err" /\ err' = "other" /\ Quiet
          /\ UNCHANGED <<t, cur, buf, stk>>
     ELSE IF x.fed \ hd = {}
     THEN ph' = "fill" /\ Quiet /\ UNCHANGED <<t, cur, buf, stk, err>>
     ELSE LET s == CHOOSE s \in x.fed \ hd : TRUE
          IN P!GotHeader(sc, x, s, x.hdr[s]) /\ UNCHANGED dvars

(* reading: skip rows before the range, stop at the first one behind it *)
ReadNext(i, whenRow, whenEnd) ==
  LET k == nread[i] + 1 IN
  IF k > Len(sc.sources[i].rows)
  THEN /\ P!ReadEof(sc, x, i)
       /\ buf' = [buf EXCEPT ![i] = 0] /\ whenEnd
  ELSE LET ts == Row(i, k).ts IN
       /\ P!ReadRow(sc, x, i)
       /\ IF sc.end # 0 /\ ts >= sc.end
          THEN buf' = [buf EXCEPT ![i] = 0] /\ whenEnd
          ELSE IF sc.begin # 0 /\ ts < sc.begin
          THEN UNCHANGED <<buf, ph, cur, stk>>
          ELSE buf' = [buf EXCEPT ![i] = k] /\ whenRow

ReadFails(i) ==
  /\ "r" \in Faults
  /\ P!ReadErr(sc, x, i)
  /\ ph' = "err" /\ err' = "r" \o ToString(i)
  /\ UNCHANGED <<t, cur, buf, stk>>

FlushTask(i) == [k |-> "fl", c |-> i, n |-> 1]

\* look-ahead of all inputs
Fill ==
  /\ ph = "fill"
  /\ \/ /\ cur <= Len(sc.sources)
        /\ ReadNext(cur, cur' = cur + 1 /\ UNCHANGED <<ph, stk>>,
                         cur' = cur + 1 /\ stk' = Append(stk, FlushTask(cur)) /\ UNCHANGED ph)
        /\ UNCHANGED <<t, err>>
     \/ cur <= Len(sc.sources) /\ ReadFails(cur)
     \/ /\ cur > Len(sc.sources)
        /\ ph' = "work" /\ cur' = 0 /\ Quiet
        /\ UNCHANGED <<t, buf, stk, err>>

\* the earliest look-ahead row, the first input winning ties
Live == {i \in Srcs : buf[i] # 0}
Earliest == CHOOSE i \in Live :
              \A j \in Live : \/ Row(i, buf[i]).ts < Row(j, buf[j]).ts
                              \/ Row(i, buf[i]).ts = Row(j, buf[j]).ts /\ i <= j

Loop ==
  /\ ph = "loop"
  /\ IF Live = {}
     THEN P!EndOk(sc, x) /\ ph' = "done" /\ UNCHANGED <<t, cur, buf, stk, err>>
     ELSE LET i == Earliest
              r == Row(i, buf[i])
          IN /\ stk' = <<[k |-> "row", c |-> i, n |-> 1, h |-> P!SourceHeader(sc.sources[i]), v |-> r.v, ts |-> r.ts]>>
             /\ cur' = i /\ ph' = "work" /\ Quiet
             /\ UNCHANGED <<t, buf, err>>

\* one node of the graph
Work ==
  /\ ph = "work"
  /\ IF stk = <<>>
     THEN /\ ph' = IF cur = 0 THEN "loop" ELSE "adv"
          /\ Quiet /\ UNCHANGED <<t, cur, buf, stk, err>>
     ELSE LET k == Head(stk)
              rest == Tail(stk)
              chain == sc.chains[k.c]
          IN
       IF k.n > Len(chain)
       THEN stk' = rest /\ Quiet /\ UNCHANGED <<t, ph, cur, buf, err>>
       ELSE LET nd == chain[k.n]
                next == [k EXCEPT !.n = @ + 1]
                into(c) == [k EXCEPT !.c = c, !.n = 1]
            IN
         CASE nd.k = "rec" /\ k.k = "row" ->
                \/ /\ P!GotRow(sc, x, nd.s, k.ts, P!Key(sc, k), k.v, 1)
                   /\ stk' = <<next>> \o rest /\ UNCHANGED <<t, ph, cur, buf, err>>
                \/ /\ "w" \in Faults
                   /\ P!WriteErr(sc, x, nd.s, P!Key(sc, k))
                   /\ ph' = "err" /\ err' = "w" \o ToString(nd.s) /\ UNCHANGED <<t, cur, buf, stk>>
           [] nd.k = "rec" /\ k.k = "fl" ->
                \/ /\ P!FlushOk(sc, x, nd.s)
                   /\ stk' = <<next>> \o rest /\ UNCHANGED <<t, ph, cur, buf, err>>
                \/ /\ "f" \in Faults
                   /\ P!FlushErr(sc, x, nd.s)
                   /\ ph' = "err" /\ err' = "f" \o ToString(nd.s) /\ UNCHANGED <<t, cur, buf, stk>>
           [] nd.k = "merge" ->
                /\ stk' = <<into(nd.to), next>> \o rest
                /\ Quiet /\ UNCHANGED <<t, ph, cur, buf, err>>
           [] nd.k = "split" ->
                /\ stk' = [j \in DOMAIN nd.to |-> into(nd.to[j])] \o <<next>> \o rest
                /\ Quiet /\ UNCHANGED <<t, ph, cur, buf, err>>
           [] OTHER ->
                /\ stk' = IF k.k = "fl" THEN <<next>> \o rest
                          ELSE LET vs == P!RowsAfter(nd, k.h, k.v)
                                   hh == P!HdrAfter(nd, k.h)
                               IN [j \in DOMAIN vs |-> [next EXCEPT !.h = hh, !.v = vs[j], !.ts = P!TsAfter(nd, k.ts, j)]] \o rest
                /\ Quiet /\ UNCHANGED <<t, ph, cur, buf, err>>

\* the row is done, look ahead in its input
Advance ==
  /\ ph = "adv"
  /\ \/ /\ ReadNext(cur, ph' = "loop" /\ UNCHANGED <<cur, stk>>,
                         ph' = "work" /\ stk' = <<FlushTask(cur)>> /\ cur' = 0)
        /\ UNCHANGED <<t, err>>
     \/ ReadFails(cur)

Fails ==
  /\ ph = "err"
  /\ P!EndErr(sc, x, err)
  /\ ph' = "done" /\ UNCHANGED <<t, cur, buf, stk, err>>

Finished == over /\ UNCHANGED vars

Next == Headers \/ Fill \/ Loop \/ Work \/ Advance \/ Fails \/ Finished

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every run ends; without failures and with mergeable headers it succeeds
Terminates == <>(ph = "done")
Succeeds == (over /\ err = "") => fail = "" /\ ~x.bad
=============================================================================

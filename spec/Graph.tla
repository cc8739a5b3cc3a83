------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Which processing graphs are consistent, and what a run over any graph    *)
(* must look like from outside: a consistent graph is run, and every output *)
(* gets every row once for every path; anything else is refused with an     *)
(* error before a single row is read.                                       *)
(*                                                                          *)
(* A scenario g is a record                                                 *)
(*   sources : sequence of inputs, input i enters chain i                   *)
(*   nh      : number of headers that were given for them                   *)
(*   chains  : sequence of chains, a chain is a sequence of nodes           *)
(*     [k |-> "rec", s |-> id]       an output                              *)
(*     [k |-> "merge", to |-> c]     hand on to chain c, which must merge   *)
(*     [k |-> "split", to |-> <<c>>] hand on to each of these chains        *)
(*     [k |-> "msink", x |-> n]      first node of a chain: merges n inputs *)
(*   Chain numbers may be anything; everything else is left alone.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Merges(g, c) == IF g.chains[c] = <<>> THEN FALSE ELSE g.chains[c][1].k = "msink"
Need(g, c) == IF Merges(g, c) THEN g.chains[c][1].x ELSE 1

\* the chains that the nodes of chain c hand rows to, one entry per time
Targets(g, c) ==
  FlattenSeq([n \in DOMAIN g.chains[c] |->
    LET nd == g.chains[c][n] IN
    CASE nd.k = "merge" -> <<nd.to>> [] nd.k = "split" -> nd.to [] OTHER -> <<>>])

RECURSIVE Closure(_, _)
Closure(g, S) ==
  LET T == S \cup UNION {{d \in Range(Targets(g, c)) : d \in DOMAIN g.chains} : c \in S}
  IN IF T = S THEN S ELSE Closure(g, T)

\* chains some input leads to
Fed(g) == Closure(g, DOMAIN g.sources \cap DOMAIN g.chains)

Times(s, d) == Cardinality({i \in DOMAIN s : s[i] = d})
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Entries(g, d) == (IF d \in DOMAIN g.sources THEN 1 ELSE 0)
                 + Sum([c \in Fed(g) |-> Times(Targets(g, c), d)], Fed(g))

Acyclic(g) == \A c \in Fed(g) : c \notin Closure(g, {d \in Range(Targets(g, c)) : d \in DOMAIN g.chains})

NodeOk(g, nd) ==
  CASE nd.k = "merge" -> IF nd.to \in DOMAIN g.chains THEN Merges(g, nd.to) ELSE FALSE
    [] nd.k = "split" -> nd.to # <<>> /\ Range(nd.to) \subseteq DOMAIN g.chains
    [] OTHER -> TRUE

Consistent(g) ==
  /\ g.nh = Len(g.sources)
  /\ DOMAIN g.sources \subseteq DOMAIN g.chains
  /\ \A c \in Fed(g) : \A n \in DOMAIN g.chains[c] : NodeOk(g, g.chains[c][n])
  /\ \A c \in Fed(g) : Entries(g, c) = Need(g, c)
  /\ \A c \in DOMAIN g.chains \ Fed(g) : ~Merges(g, c)
  /\ Acyclic(g)

\* number of paths from chain c to output s
RECURSIVE Paths(_, _, _)
Paths(g, c, s) ==
  LET ts == Targets(g, c)
  IN Cardinality({n \in DOMAIN g.chains[c] : g.chains[c][n].k = "rec" /\ g.chains[c][n].s = s})
     + Sum([i \in DOMAIN ts |-> Paths(g, ts[i], s)], DOMAIN ts)

Outs(g, C) == UNION {{g.chains[c][n].s : n \in {m \in DOMAIN g.chains[c] : g.chains[c][m].k = "rec"}} : c \in C}

Expect(g) ==
  LET ok == Consistent(g)
  IN [ok |-> ok,
      all |-> Outs(g, DOMAIN g.chains),
      fed |-> IF ok THEN Outs(g, Fed(g)) ELSE {},
      owed |-> [s \in Outs(g, DOMAIN g.chains) |->
                 IF ok THEN Sum([i \in DOMAIN g.sources |-> Len(g.sources[i].rows) * Paths(g, i, s)], DOMAIN g.sources) ELSE 0]]

-----------------------------------------------------------------------------
(* The observer.  X is Expect(g). *)
VARIABLES owed, hd, dirty, over
gvars == <<owed, hd, dirty, over>>

GInit(X) == owed = X.owed /\ hd = {} /\ dirty = X.fed /\ over = FALSE

GRead(X) == X.ok /\ UNCHANGED gvars

\* headers are handed out while the graph is being examined
GHeader(X, s) == /\ s \notin hd
                 /\ X.ok => s \in X.fed
                 /\ hd' = hd \cup {s} /\ UNCHANGED <<owed, dirty, over>>

GRow(X, s) == /\ X.ok /\ s \in hd /\ owed[s] > 0
              /\ owed' = [owed EXCEPT ![s] = @ - 1]
              /\ dirty' = dirty \cup {s}
              /\ UNCHANGED <<hd, over>>

GFlush(X, s) == /\ X.ok /\ s \in hd
                /\ dirty' = dirty \ {s} /\ UNCHANGED <<owed, hd, over>>

GEndOk(X) == /\ X.ok
             /\ \A s \in X.all : owed[s] = 0
             /\ hd = X.fed /\ dirty = {}
             /\ over' = TRUE /\ UNCHANGED <<owed, hd, dirty>>

GEndErr(X) == /\ ~X.ok
              /\ over' = TRUE /\ UNCHANGED <<owed, hd, dirty>>
=============================================================================

------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The stored state of one database, and what the properties say about a   *)
(* step of it.  The same definitions are used for the steps of the model   *)
(* (WiggleGraph.tla, checked exhaustively) and for the steps observed on   *)
(* the real code (Trace.tla).                                              *)
(*                                                                         *)
(* A state is a record                                                     *)
(*   ok     every file can be read                                         *)
(*   nodes  sequence of [k, wn, l, p, c, u]: the number it is filed under, *)
(*          its own number, label, properties (sequence of <<name, value>>)*)
(*          time of creation, whether it has an update time                *)
(*   rels   sequence of [wn, hold, from, to, n, p, c, u], hold is the      *)
(*          number of the node it is stored with                           *)
(*   il, ir, inr  the label index, the relationship name index (sequences) *)
(*          and the node-relationship index (sequence of                   *)
(*          <<node, sequence of relationship numbers>>)                    *)
(*   ctr    the number file                                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Empty == [ok |-> TRUE, nodes |-> <<>>, rels |-> <<>>, il |-> <<>>, ir |-> <<>>,
          inr |-> <<>>, ctr |-> 0]

(*********************** reading a state ***********************************)
NodeSet(s) == {[s.nodes[j] EXCEPT !.p = Range(@)] : j \in 1..Len(s.nodes)}
RelSet(s) == {[s.rels[j] EXCEPT !.p = Range(@)] : j \in 1..Len(s.rels)}
NodeWns(s) == {s.nodes[j].wn : j \in 1..Len(s.nodes)}
RelWns(s) == {s.rels[j].wn : j \in 1..Len(s.rels)}
Labels(s) == {s.nodes[j].l : j \in 1..Len(s.nodes)}
Names(s) == {s.rels[j].n : j \in 1..Len(s.rels)} \ {""}
RelsOf(s, w) == {s.rels[j].wn : j \in {x \in 1..Len(s.rels) : s.rels[x].hold = w}}
Holders(s) == {s.rels[j].hold : j \in 1..Len(s.rels)}
NodeRels(s) == {<<w, RelsOf(s, w)>> : w \in Holders(s)}
NodeRelIndex(s) == {<<s.inr[j][1], Range(s.inr[j][2])>> : j \in 1..Len(s.inr)}
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x
MaxWn(s) == MaxOf(NodeWns(s) \cup RelWns(s), -1)

SameContent(a, b) ==
  /\ a.ok = b.ok
  /\ NodeSet(a) = NodeSet(b) /\ Len(a.nodes) = Len(b.nodes)
  /\ RelSet(a) = RelSet(b) /\ Len(a.rels) = Len(b.rels)
SameIndexes(a, b) ==
  Range(a.il) = Range(b.il) /\ Range(a.ir) = Range(b.ir) /\ NodeRelIndex(a) = NodeRelIndex(b)

(* What a step added.  Nodes in the order of their numbers.                *)
NewNodes(pre, post) ==
  LET old == NodeWns(pre) IN
  SortSeq(SelectSeq(post.nodes, LAMBDA x : x.wn \notin old), LAMBDA a, b : a.wn < b.wn)
NewRels(pre, post) ==
  LET old == RelWns(pre) IN
  SortSeq(SelectSeq(post.rels, LAMBDA x : x.wn \notin old), LAMBDA a, b : a.wn < b.wn)

(*********************** what a query asks for *****************************)
(* makes: one sequence of patterns per MAKE; a pattern is                  *)
(* [ns |-> <<[h, l, p]>>, rs |-> <<[h, n, p, d]>>], d is ">" or "<".       *)
Flat(makes) == FlattenSeq(makes)
WantNodes(makes) == LET f == Flat(makes) IN FlattenSeq([j \in 1..Len(f) |-> f[j].ns])
Offsets(pats) ==      \* number of nodes before pattern j
  [j \in 1..Len(pats) |-> FoldLeft(LAMBDA a, b : a + b, 0,
                                   [x \in 1..(j-1) |-> Len(pats[x].ns)])]
(* relationships with the positions of their ends among the wanted nodes   *)
WantRels(makes) ==
  LET f == Flat(makes)
      o == Offsets(f) IN
  FlattenSeq([j \in 1..Len(f) |->
     [x \in 1..Len(f[j].rs) |->
        [from |-> IF f[j].rs[x].d = ">" THEN o[j] + x ELSE o[j] + x + 1,
         to |-> IF f[j].rs[x].d = ">" THEN o[j] + x + 1 ELSE o[j] + x,
         n |-> f[j].rs[x].n, p |-> f[j].rs[x].p]]])

Wild(p) == \E j \in 1..Len(p) : p[j][2] = "?" \/ SubSeq(p[j][2], 1, 2) = "g:"

(* a decimal of many digits: what is stored is next to it                  *)
DigitOf == [c \in {ToString(n) : n \in 0..9} |-> CHOOSE n \in 0..9 : ToString(n) = c]
Dot(s) == CHOOSE j \in 1..Len(s) : SubSeq(s, j, j) = "."
DigitsOf(s, a, b) == \* the digits of s, a before the point and b after it
  LET d == Dot(s) IN
  [j \in 1..(a + b) |-> LET x == IF j <= a THEN d - 1 - a + j ELSE d + j - a IN
                        IF x < 1 \/ x > Len(s) THEN 0 ELSE DigitOf[SubSeq(s, x, x)]]
Minus(x, y) ==      \* of two numbers of the same length, the second not larger
  FoldLeft(LAMBDA acc, j : LET k == Len(x) + 1 - j
                               z == x[k] - y[k] - acc[1] IN
             <<IF z < 0 THEN 1 ELSE 0, <<IF z < 0 THEN z + 10 ELSE z>> \o acc[2]>>,
           <<0, <<>>>>, [j \in 1..Len(x) |-> j])[2]
Under(x, y) == \E j \in 1..Len(x) : x[j] < y[j] /\ \A k \in 1..(j - 1) : x[k] = y[k]
Some(x, a, b) == FoldLeft(LAMBDA acc, j : 10 * acc + x[j], 0, [j \in 1..(b - a + 1) |-> a + j - 1])
CloseTo(want, got) ==
  LET w0 == SubSeq(want, 3, Len(want))
      g0 == SubSeq(got, 3, Len(got))
      a == LET m == Dot(w0) - 1
               n == Dot(g0) - 1 IN IF m > n THEN m ELSE n
      b == Len(w0) + Len(g0) + 18
      w == DigitsOf(w0, a, b)
      g == DigitsOf(g0, a, b)
      d == IF Under(w, g) THEN Minus(g, w) ELSE Minus(w, g) IN
  IF \A j \in 1..(a + b) : w[j] = 0 THEN w = g
  ELSE LET k == CHOOSE j \in 1..(a + b) : w[j] # 0 /\ \A x \in 1..(j - 1) : w[x] = 0 IN
       /\ \A j \in 1..(IF k + 14 < a + b THEN k + 14 ELSE a + b) : d[j] = 0
       /\ k + 17 <= a + b => 1000 * Some(d, k + 15, k + 17) <= 23 * Some(w, k, k + 3)
SameValue(w, g) ==
  \/ w = "?" \/ w = g
  \/ SubSeq(w, 1, 2) = "g:" /\ SubSeq(g, 1, 2) = "f:" /\ CloseTo(w, g)

SameProps(want, got) ==
  /\ Len(want) = Len(got)
  /\ \A j \in 1..Len(want) :
        \E x \in 1..Len(got) : got[x][1] = want[j][1] /\ SameValue(want[j][2], got[x][2])

(*********************** the properties of a step **************************)
(* Each is a set of reasons; it is empty if the property holds.            *)
If(b, reason) == IF b THEN {reason} ELSE {}

(* C01: exactly the nodes that were written                                *)
C01Made(pre, makes, post) ==
  LET w == WantNodes(makes)
      g == NewNodes(pre, post) IN
     If(Len(g) # Len(w), "number of new nodes is not the number written")
  \cup If(Len(g) = Len(w) /\ \E j \in 1..Len(w) : g[j].l # w[j].l,
          "label of a new node is not the one written in its place")

(* C02: exactly the relationships that were written                        *)
C02Made(pre, makes, post) ==
  LET w == WantRels(makes)
      g == NewRels(pre, post)
      ns == NewNodes(pre, post)
      pos(x) == IF \E j \in 1..Len(ns) : ns[j].wn = x
                THEN CHOOSE j \in 1..Len(ns) : ns[j].wn = x ELSE 0 IN
     If(Len(g) # Len(w), "number of new relationships is not the number written")
  \cup If({<<pos(g[j].from), pos(g[j].to)>> : j \in 1..Len(g)}
            # {<<w[j].from, w[j].to>> : j \in 1..Len(w)},
          "a relationship does not join the nodes written, in the direction written")
  \cup If({<<pos(g[j].from), pos(g[j].to), g[j].n>> : j \in 1..Len(g)}
            # {<<w[j].from, w[j].to, w[j].n>> : j \in 1..Len(w)},
          "a relationship does not have the name written")
  \cup If(\E j \in 1..Len(g) : g[j].hold # g[j].from,
          "a relationship is not kept with the node it leaves")

(* C03: numbers.  `issued` is the largest number ever seen in use          *)
C03State(s) ==
     If(\E j \in 1..Len(s.nodes) : s.nodes[j].k # s.nodes[j].wn, "a node is not filed under its own number")
  \cup If(Cardinality(NodeWns(s) \cup RelWns(s)) # Len(s.nodes) + Len(s.rels), "a number is used twice")
C03Step(pre, post, issued) ==
  LET new == (NodeWns(post) \cup RelWns(post)) \ (NodeWns(pre) \cup RelWns(pre)) IN
     C03State(post)
  \cup If(\E x \in new : x <= issued, "a number is not larger than all numbers issued before")
C03Counter(s) == If(s.ctr <= MaxWn(s), "the number file is not ahead of the numbers in use")

(* C04: nothing stored is changed or removed                               *)
C04Kept(pre, post) ==
     If(~(NodeSet(pre) \subseteq NodeSet(post)), "a stored node was changed or removed")
  \cup If(~(RelSet(pre) \subseteq RelSet(post)), "a stored relationship was changed or removed")
C04ReadOnly(pre, post) ==
     If(~SameContent(pre, post), "a query without MAKE changed the graph")
  \cup If(~SameIndexes(pre, post), "a query without MAKE changed an index")
  \cup If(pre.ctr # post.ctr, "a query without MAKE changed the number file")

(* C05: indexes                                                            *)
C05Exact(s) ==
     If(Range(s.il) # Labels(s), "label index is not the set of labels")
  \cup If(Range(s.ir) # Names(s), "relationship name index is not the set of names")
  \cup If(NodeRelIndex(s) # NodeRels(s), "node-relationship index is not that of the graph")
C05Super(s) ==
     If(~(Labels(s) \subseteq Range(s.il)), "label index misses a label")
  \cup If(~(Names(s) \subseteq Range(s.ir)), "relationship name index misses a name")
  \cup If(\E x \in NodeRels(s) : ~\E y \in NodeRelIndex(s) : y[1] = x[1] /\ x[2] \subseteq y[2],
          "node-relationship index misses a relationship")

(* C06: a rejected query does nothing                                      *)
C06Rejected(pre, post) ==
     If(~SameContent(pre, post), "a rejected query changed the graph")
  \cup If(~SameIndexes(pre, post), "a rejected query changed an index")
  \cup If(pre.ctr # post.ctr, "a rejected query changed the number file")

(* C07: properties, where the nodes and relationships themselves are right *)
C07Made(pre, makes, post) ==
  LET wn == WantNodes(makes)
      gn == NewNodes(pre, post)
      wr == WantRels(makes)
      gr == NewRels(pre, post)
      pos(x) == IF \E j \in 1..Len(gn) : gn[j].wn = x
                THEN CHOOSE j \in 1..Len(gn) : gn[j].wn = x ELSE 0 IN
     If(Len(gn) = Len(wn) /\ \E j \in 1..Len(wn) : ~SameProps(wn[j].p, gn[j].p),
        "properties of a node are not those written")
  \cup If(\E j \in 1..Len(wr) : \E x \in 1..Len(gr) :
             {pos(gr[x].from), pos(gr[x].to)} = {wr[j].from, wr[j].to} /\ ~SameProps(wr[j].p, gr[x].p),
          "properties of a relationship are not those written")

(* C08: nothing written is dropped: totals                                 *)
SumLen(ps) == FoldLeft(LAMBDA a, b : a + Len(b.p), 0, ps)
C08Made(pre, makes, post) ==
     If(Len(NewNodes(pre, post)) < Len(WantNodes(makes)), "a node that was written is not stored")
  \cup If(Len(NewRels(pre, post)) < Len(WantRels(makes)), "a relationship that was written is not stored")
  \cup If(SumLen(NewNodes(pre, post)) + SumLen(NewRels(pre, post))
            < SumLen(WantNodes(makes)) + SumLen(WantRels(makes)), "a property that was written is not stored")

(* C19: creation times, t0 and t1 are the start and end of the query       *)
C19Made(pre, post, t0, t1) ==
  LET gn == NewNodes(pre, post)
      gr == NewRels(pre, post) IN
     If(\E j \in 1..Len(gn) : gn[j].c < t0 \/ gn[j].c > t1, "creation time of a node is not within the query")
  \cup If(\E j \in 1..Len(gr) : gr[j].c < t0 \/ gr[j].c > t1, "creation time of a relationship is not within the query")
  \cup If((\E j \in 1..Len(gn) : gn[j].u) \/ (\E j \in 1..Len(gr) : gr[j].u), "an update time is stored by MAKE")
C19Kept(pre, post) ==
  If(\E a \in NodeSet(pre) : \E b \in NodeSet(post) : a.wn = b.wn /\ (a.c # b.c \/ a.u # b.u),
     "the creation time of a stored node changed")
  \cup If(\E a \in RelSet(pre) : \E b \in RelSet(post) : a.wn = b.wn /\ (a.c # b.c \/ a.u # b.u),
     "the creation time of a stored relationship changed")

(* All of the query, or none of it                                         *)
AllOrNone(pre, makes, post) ==
  LET full == C01Made(pre, makes, post) \cup C02Made(pre, makes, post) \cup C07Made(pre, makes, post)
      none == NewNodes(pre, post) = <<>> /\ NewRels(pre, post) = <<>> IN
  If(~none /\ full # {}, "the interrupted query is stored in part")

(*********************** finding *******************************************)
HasProps(want, got) == \A j \in 1..Len(want) : \E x \in 1..Len(got) : got[x] = want[j]
NodeFits(w, n) == n.l = w.l /\ HasProps(w.p, n.p)
RelFits(w, r) == (w.n = "" \/ r.n = w.n) /\ HasProps(w.p, r.p)
(* is there a match of the pattern: distinct nodes joined as written       *)
HasMatch(s, pat) ==
  LET cand(j) == {x \in 1..Len(s.nodes) : NodeFits(pat.ns[j], s.nodes[x])}
      joined(j, a, b) ==     \* by relationship j, from position j to j + 1
        \E x \in 1..Len(s.rels) :
           /\ RelFits(pat.rs[j], s.rels[x])
           /\ IF pat.rs[j].d = ">" THEN s.rels[x].from = s.nodes[a].wn /\ s.rels[x].to = s.nodes[b].wn
                                   ELSE s.rels[x].from = s.nodes[b].wn /\ s.rels[x].to = s.nodes[a].wn IN
  CASE Len(pat.ns) = 1 -> cand(1) # {}
    [] Len(pat.ns) = 2 -> \E a \in cand(1), b \in cand(2) : a # b /\ joined(1, a, b)
    [] OTHER -> \E a \in cand(1), b \in cand(2) :
                   a # b /\ joined(1, a, b) /\ \E c \in cand(3) : c # b /\ c # a /\ joined(2, b, c)
PatLabels(pat) == {pat.ns[j].l : j \in 1..Len(pat.ns)}
PatNames(pat) == {pat.rs[j].n : j \in 1..Len(pat.rs)} \ {""}
PatWild(pat) == (\E j \in 1..Len(pat.ns) : Wild(pat.ns[j].p)) \/ (\E j \in 1..Len(pat.rs) : Wild(pat.rs[j].p))
RuledOut(s, pat) ==
  \/ PatLabels(pat) \cap Labels(s) = {}
  \/ PatNames(pat) # {} /\ PatNames(pat) \cap Names(s) = {}
(* none: the query said there are no results                               *)
C09Sound(s, pat, none) ==
  If(none /\ HasMatch(s, pat), "no results, but the graph has a match")
C09Complete(s, pat, none) ==
  If(~none /\ RuledOut(s, pat), "no label, or no name, of the pattern is in the graph, but no 'no results'")

(*********************** canonical content *********************************)
(* the graph up to gaps in the numbering, and up to times                  *)
Canon(s) ==
  LET ns == SortSeq(s.nodes, LAMBDA a, b : a.wn < b.wn)
      pos(x) == IF \E j \in 1..Len(ns) : ns[j].wn = x
                THEN CHOOSE j \in 1..Len(ns) : ns[j].wn = x ELSE 0 IN
  [nodes |-> [j \in 1..Len(ns) |-> <<ns[j].l, Range(ns[j].p)>>],
   rels |-> {<<pos(s.rels[j].from), pos(s.rels[j].to), s.rels[j].n, Range(s.rels[j].p)>> : j \in 1..Len(s.rels)},
   nrels |-> Len(s.rels)]
CanonIndex(s) ==
  LET ns == SortSeq(s.nodes, LAMBDA a, b : a.wn < b.wn)
      rs == SortSeq(s.rels, LAMBDA a, b : a.wn < b.wn)
      pos(x) == IF \E j \in 1..Len(ns) : ns[j].wn = x
                THEN CHOOSE j \in 1..Len(ns) : ns[j].wn = x ELSE 0
      rpos(x) == IF \E j \in 1..Len(rs) : rs[j].wn = x
                THEN LET r == CHOOSE r \in Range(rs) : r.wn = x IN <<pos(r.from), pos(r.to)>> ELSE <<0, 0>> IN
  [il |-> Range(s.il), ir |-> Range(s.ir),
   inr |-> {<<pos(x[1]), {rpos(y) : y \in x[2]}>> : x \in NodeRelIndex(s)}]
=============================================================================

------------------------------- MODULE Effect -------------------------------
(***************************************************************************)
(* What a MAKE stores: the numbers it gives, and the effect of each of its *)
(* writes.  Used by the model (WiggleGraph.tla) and by the generator of    *)
(* scripts (Scripts.tla).                                                  *)
(***************************************************************************)
EXTENDS Graph

(*********************** what a MAKE writes ********************************)
(* nodes left to right, then relationships, pattern by pattern             *)
Sum(ss) == FoldLeft(LAMBDA a, b : a + b, 0, ss)
Plan(makes, ctr, clk) ==
  LET ps == Flat(makes)
      first(j) == ctr + Sum([x \in 1..(j-1) |-> Len(ps[x].ns) + Len(ps[x].rs)])
      nodes == FlattenSeq([j \in 1..Len(ps) |->
         [x \in 1..Len(ps[j].ns) |->
            [k |-> first(j) + x - 1, wn |-> first(j) + x - 1, l |-> ps[j].ns[x].l,
             p |-> ps[j].ns[x].p, c |-> clk, u |-> FALSE]]])
      rels == FlattenSeq([j \in 1..Len(ps) |->
         [x \in 1..Len(ps[j].rs) |->
            LET a == first(j) + (IF ps[j].rs[x].d = ">" THEN x ELSE x + 1) - 1
                b == first(j) + (IF ps[j].rs[x].d = ">" THEN x + 1 ELSE x) - 1 IN
            [wn |-> first(j) + Len(ps[j].ns) + x - 1, hold |-> a, from |-> a, to |-> b,
             n |-> ps[j].rs[x].n, p |-> ps[j].rs[x].p, c |-> clk, u |-> FALSE]]]) IN
  [nodes |-> nodes, rels |-> rels, next |-> first(Len(ps) + 1)]

Union(s, S) == s \o SetToSeq(S \ Range(s))
Write(s, plan, step) ==
  LET new == [s EXCEPT !.nodes = s.nodes \o plan.nodes, !.rels = s.rels \o plan.rels] IN
  CASE step = "num" -> [s EXCEPT !.ctr = plan.next]
    [] step = "db" -> new
    [] step = "il" -> [s EXCEPT !.il = Union(@, {plan.nodes[j].l : j \in 1..Len(plan.nodes)})]
    [] step = "ir" -> [s EXCEPT !.ir = Union(@, {plan.rels[j].n : j \in 1..Len(plan.rels)} \ {""})]
    [] step = "inr" ->
         LET P == [s EXCEPT !.nodes = plan.nodes, !.rels = plan.rels] IN
         [s EXCEPT !.inr = @ \o SetToSeq({<<x[1], SetToSeq(x[2])>> : x \in NodeRels(P)})]
RECURSIVE WriteAll(_, _, _)
WriteAll(s, plan, steps) ==
  IF steps = <<>> THEN s ELSE WriteAll(Write(s, plan, Head(steps)), plan, Tail(steps))

(* FIND looks in the indexes                                               *)
NoResults(s, pat) ==
  \/ PatLabels(pat) \cap Range(s.il) = {}
  \/ PatNames(pat) # {} /\ PatNames(pat) \cap Range(s.ir) = {}
=============================================================================

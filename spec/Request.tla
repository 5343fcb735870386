------------------------------ MODULE Request ------------------------------
(***************************************************************************)
(* The search request that is made from a FIND (C21): a place for each     *)
(* node, left, middle and right, with the relationships that leave it, and *)
(* the labels and names to look up in the indexes.  Criteria for a handle  *)
(* are taken into the place that has that handle (C27).                    *)
(***************************************************************************)
EXTENDS Graph

Smaller(a, b) == IF a < b THEN a ELSE b
Nowhere == [on |-> FALSE, l |-> "", h |-> "", p |-> <<>>, rels |-> <<>>]
RelsFrom(pat, j) == \* the relationships that leave node j, left to right
  SelectSeq([x \in 1..Len(pat.rs) |-> <<x, pat.rs[x]>>],
            LAMBDA r : IF r[2].d = ">" THEN r[1] = j ELSE r[1] + 1 = j)
Requested(pat) ==
  [ns |-> [j \in 1..3 |->
      IF j > Len(pat.ns) THEN Nowhere
      ELSE [on |-> TRUE, l |-> pat.ns[j].l, h |-> pat.ns[j].h, p |-> pat.ns[j].p,
            rels |-> LET rs == RelsFrom(pat, j) IN
                     [x \in 1..Len(rs) |-> [n |-> rs[x][2].n, h |-> rs[x][2].h, p |-> rs[x][2].p]]]],
   labels |-> SetToSeq(PatLabels(pat)), names |-> SetToSeq(PatNames(pat))]

(************************ the verdict on a request *************************)
Found(w, g) ==      \* w: [h, l, p]; g: what the request has in that place
  /\ g.on /\ g.l = w.l /\ g.h = w.h /\ SameProps(w.p, g.p)
SameRels(w, g) ==
  /\ Len(w) = Len(g)
  /\ \A x \in 1..Len(w) : \E y \in 1..Len(g) :
       g[y].n = w[x][2].n /\ g[y].h = w[x][2].h /\ SameProps(w[x][2].p, g[y].p)
  /\ \A y \in 1..Len(g) : \E x \in 1..Len(w) :
       g[y].n = w[x][2].n /\ g[y].h = w[x][2].h /\ SameProps(w[x][2].p, g[y].p)
RequestFaults(pat, out) ==
     If(\E j \in 1..3 : out.ns[j].on # (j <= Len(pat.ns)), "the request has not the positions written")
  \cup If(\E j \in 1..Smaller(3, Len(pat.ns)) : ~Found(pat.ns[j], out.ns[j]),
          "a node of the request is not the one written in that position")
  \cup If(\E j \in 1..Smaller(3, Len(pat.ns)) : ~SameRels(RelsFrom(pat, j), out.ns[j].rels),
          "a relationship of the request is not the one written, or not with the node it leaves")
  \cup If(Range(out.labels) # PatLabels(pat), "the labels to look up are not those written")
  \cup If(Range(out.names) # PatNames(pat), "the names to look up are not those written")

(************************ criteria *****************************************)
(* crit: a sequence of [h, yes, no], each handle once; yes and no are the  *)
(* properties that must and must not be there                              *)
Given(crit, hd) == LET js == {j \in 1..Len(crit) : hd # "" /\ crit[j].h = hd} IN
  IF js = {} THEN [yes |-> <<>>, no |-> <<>>] ELSE crit[CHOOSE j \in js : TRUE]
Named(ps) == {ps[j][1] : j \in 1..Len(ps)}
(* what the criteria say about a property is what holds                    *)
Override(ps, qs) == SelectSeq(ps, LAMBDA x : x[1] \notin Named(qs)) \o qs
WithCriteria(pat, crit) ==
  LET with(x) == [x EXCEPT !.p = Override(x.p, Given(crit, x.h).yes)] IN
  [pat EXCEPT !.ns = [j \in 1..Len(@) |-> with(@[j])], !.rs = [j \in 1..Len(@) |-> with(@[j])]]

CriteriaFaults(pat, crit, out) ==
  LET w == WithCriteria(pat, crit)
      no(x) == Given(crit, x.h).no IN
     RequestFaults(w, out)
  \cup If(\E j \in 1..Smaller(3, Len(pat.ns)) : ~SameProps(no(pat.ns[j]), out.ns[j].no),
          "what must not be there is not what the criteria say about that node")
  \cup If(\E j \in 1..Smaller(3, Len(pat.ns)) : LET rs == RelsFrom(pat, j) IN
            \E x \in 1..Len(rs) : ~\E y \in 1..Len(out.ns[j].rels) : LET r == out.ns[j].rels[y] IN
              /\ r.n = rs[x][2].n /\ r.h = rs[x][2].h
              /\ SameProps(WithCriteria(pat, crit).rs[rs[x][1]].p, r.p)
              /\ SameProps(no(rs[x][2]), r.no),
          "what must not be there is not what the criteria say about that relationship")
=============================================================================

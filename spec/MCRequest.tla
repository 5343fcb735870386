----------------------------- MODULE MCRequest -----------------------------
(***************************************************************************)
(* How a search request is made, place by place, from a pattern and        *)
(* criteria (C21, C27).  In the end it must be the one that was written.   *)
(*                                                                         *)
(* Builder  "true", or a builder with a flaw that C27 must show:           *)
(*   "replace"  what the criteria say takes the place of what was written  *)
(*   "keep"     what was written is kept against the criteria              *)
(*   "unset"    criteria only enter where properties were written          *)
(*   "every"    criteria enter every place with a handle                   *)
(*   "nodes"    criteria only enter nodes                                  *)
(*   "no"       what must not be there is asked for                        *)
(*   "shared"   places without properties have one and the same set of them*)
(***************************************************************************)
EXTENDS Build, Request, TLC, Json

CONSTANTS Builder, Deep, Telling
VARIABLES pat, crit, out, todo
vars == <<pat, crit, out, todo>>

(************************ patterns *****************************************)
P == << <<"p", <<"1">>>> >>
Q == << <<"q", <<"'y'">>>>, <<"p", <<"1">>>> >>
Sets == IF Deep THEN {<<>>, P, Q} ELSE {<<>>, P}
Letters == <<"a", "b", "c", "d", "e">>
Hd(k) == {"", Letters[k]}
Node3 == {Pat(<<Node("a", "A", ps[1]), Node(m, "B", ps[3]), Node("e", "C", ps[5])>>,
              <<Rel("b", "R", ps[2], d1), Rel("d", "", ps[4], d2)>>) :
            ps \in [1..5 -> Sets], d1 \in Dirs, d2 \in Dirs, m \in {"", "c"}}
Node2 == {Pat(<<Node(h1, "A", p1), Node(h3, "A", p3)>>, <<Rel(h2, "R", p2, d)>>) :
            h1 \in Hd(1), h2 \in Hd(2), h3 \in Hd(3), p1 \in Sets, p2 \in Sets, p3 \in Sets, d \in Dirs}
Node1 == {Pat(<<Node(h, "A", p)>>, <<>>) : h \in Hd(1), p \in Sets}
Meant(x) == [x EXCEPT !.ns = [j \in 1..Len(@) |-> [@[j] EXCEPT !.p = Expect(@)]],
                      !.rs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.p = Expect(@)]]]

(************************ criteria *****************************************)
Yes == {<<>>, << <<"p", "i:2">> >>, << <<"q", "n:">> >>}
No == {<<>>, << <<"p", "i:1">>, <<"r", "b:false">> >>}
C(h, y, n) == [h |-> h, yes |-> y, no |-> n]
Both(h) == C(h, << <<"p", "i:0">> >>, << <<"q", "s:">> >>)
Handles == {"a", "b", "c", "d", "e", "z"}
Criteria == {<<>>} \cup {<<C(h, y, n)>> : h \in Handles, y \in Yes, n \in No}
            \cup {<<Both(h), C(g, <<>>, << <<"p", "i:3">> >>)>> : h \in Handles, g \in {"a", "c", "e"} }
            \cup {<<Both("a"), Both("b"), Both("c"), Both("d"), Both("e")>>}
Once(c) == \A j, k \in 1..Len(c) : c[j].h = c[k].h => j = k

Blank0 == [on |-> FALSE, l |-> "", h |-> "", p |-> <<>>, no |-> <<>>, rels |-> <<>>]
Init == /\ pat \in Node1 \cup Node2 \cup Node3
        /\ crit \in {c \in Criteria : Once(c)}
        /\ out = [ns |-> [j \in 1..3 |-> Blank0], labels |-> <<>>, names |-> <<>>]
        /\ todo = <<"node", 1>>

(************************ place by place ***********************************)
Entered(ps, x, isnode) ==  \* ps: what was written in place x
  LET g == IF Builder = "every" /\ x.h # "" /\ crit # <<>> THEN [yes |-> crit[1].yes, no |-> crit[1].no] ELSE Given(crit, x.h) IN
  CASE Builder = "replace" /\ g.yes # <<>> -> [p |-> g.yes, no |-> g.no]
    [] Builder = "keep" -> [p |-> Override(g.yes, ps), no |-> g.no]
    [] Builder = "unset" /\ ps = <<>> -> [p |-> <<>>, no |-> g.no]
    [] Builder = "nodes" /\ ~isnode -> [p |-> ps, no |-> <<>>]
    [] Builder = "no" -> [p |-> Override(ps, g.yes \o SelectSeq(g.no, LAMBDA y : y[1] \notin Named(g.yes))), no |-> <<>>]
    [] Builder = "shared" /\ ps = <<>> ->
         [p |-> LET h == SelectSeq(crit, LAMBDA c : c.h # "" /\ c.h # "z") IN
                IF h = <<>> THEN <<>> ELSE h[1].yes, no |-> g.no]
    [] OTHER -> [p |-> Override(ps, g.yes), no |-> g.no]
HasNode(k) == Len(pat.ns) >= k
PutNode ==
  /\ todo[1] = "node"
  /\ LET k == todo[2]
         x == pat.ns[k]
         v == Entered(Expect(x.p), x, TRUE) IN
     /\ out' = [out EXCEPT !.ns[k] = [on |-> TRUE, l |-> x.l, h |-> x.h, p |-> v.p, no |-> v.no, rels |-> <<>>],
                           !.labels = Append(@, x.l)]
     /\ todo' = IF HasNode(k + 1) THEN <<"node", k + 1>> ELSE IF k > 1 THEN <<"rel", 1>> ELSE <<"end", 0>>
  /\ UNCHANGED <<pat, crit>>
PutRel ==
  /\ todo[1] = "rel"
  /\ LET k == todo[2]
         x == pat.rs[k]
         at == IF x.d = ">" THEN k ELSE k + 1
         v == Entered(Expect(x.p), x, FALSE) IN
     /\ out' = [out EXCEPT !.ns[at].rels = Append(@, [n |-> x.n, h |-> x.h, p |-> v.p, no |-> v.no]),
                           !.names = IF x.n = "" THEN @ ELSE Append(@, x.n)]
     /\ todo' = IF k < Len(pat.rs) THEN <<"rel", k + 1>> ELSE <<"end", 0>>
  /\ UNCHANGED <<pat, crit>>
Next == PutNode \/ PutRel
Spec == Init /\ [][Next]_vars

Ended == todo[1] = "end"
C21 == Ended /\ crit = <<>> => RequestFaults(Meant(pat), out) = {}
C27 == Ended => CriteriaFaults(Meant(pat), crit, out) = {}
(* never more than what was written so far                                 *)
Growing == \A j \in 1..3 : out.ns[j].on => HasNode(j)

Tell == Ended /\ Telling => PrintT("CASE|" \o ToJson(<<Plain(FindToks(<<pat>>)), crit>>))
=============================================================================

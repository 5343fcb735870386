------------------------------- MODULE Scripts -------------------------------
(***************************************************************************)
(* Generator of scripts for the real code, run by TLC in simulation mode.  *)
(* The generator follows the stored graph of two databases (with           *)
(* Effect.tla), so that it can ask for what is there, and for what is      *)
(* almost there.  A script is printed as one line of JSON when it is       *)
(* LEN steps long.  What the real code must do is not decided here but in  *)
(* Trace.tla, from the text alone.                                         *)
(***************************************************************************)
EXTENDS Effect, Build, TLC, Json, IOUtils

VARIABLES dbs, log, len, hist
vars == <<dbs, log, len, hist>>
Pick(S) == RandomElement(S)
Chance(x, y) == Pick(1..y) <= x
Limit == atoi(IOEnv.LEN)

(*********************** random patterns ***********************************)
Labs == {"A", "B", "C", "Node_1", "lower"}
Nms == {"R", "S", "REL_2", ""}
Keys == <<"a", "name", "x_1", "Key">>
Values == {<<"0">>, <<"42">>, <<"3.14">>, <<"2.0">>, <<"true">>, <<"false">>, <<"null">>, <<"'x'">>, <<"\"x\"">>,
           <<"'3 4'">>, <<"'2'">>, <<"\"it's\"">>, <<"'is true'">>, <<"'make'">>,
           <<"[", "1", ",", "'null'", "]">>, <<"[", "true", "]">>, <<"[", "'x y'", ",", "null", ",", "2.5", "]">>}
SomeProps(z) == IF Chance(1, 2) THEN <<>>
             ELSE LET S == TLCEval({j \in 1..4 : Chance(1, 3 + 0 * z)})
                      q == SetToSeq(S) IN
                  TLCEval([j \in 1..Len(q) |-> <<Keys[q[j]], Pick(Values)>>])
SomeNode(z) == Node("", Pick(Labs), SomeProps(z))
SomeRel(z) == Rel("", Pick(Nms), SomeProps(z), Pick(Dirs))
SomePat(z) == LET k == Pick(1..(3 + 0 * z)) IN
  TLCEval(Pat([j \in 1..k |-> SomeNode(j)], [j \in 1..(k - 1) |-> SomeRel(j)]))
SomePats(z) == LET k == Pick(1..(3 + 0 * z)) IN TLCEval([j \in 1..k |-> SomePat(j)])

(*********************** patterns that are stored **************************)
Sub(p) == LET q == SetToSeq(TLCEval({j \in 1..Len(p) : Chance(1, 2)})) IN [j \in 1..Len(q) |-> p[q[j]]]
NodeOf(s, w) == LET n == CHOOSE n \in Range(s.nodes) : n.wn = w IN Node("", n.l, Sub(n.p))
(* from the node numbered w along the relationship r                       *)
RelAt(r, w) == Rel("", IF Chance(1, 3) THEN "" ELSE r.n, Sub(r.p), IF r.from = w THEN ">" ELSE "<")
Far(r, w) == IF r.from = w THEN r.to ELSE r.from
Stored(s) == TLCEval(
  IF s.rels = <<>> \/ Chance(1, 4)
  THEN Pat(<<NodeOf(s, Pick(NodeWns(s)))>>, <<>>)
  ELSE LET r == Pick(Range(s.rels))
           w == Pick({r.from, r.to})
           v == Far(r, w)
           more == {x \in Range(s.rels) : x # r /\ v \in {x.from, x.to} /\ Far(x, v) # w} IN
       IF more = {} \/ Chance(1, 3)
       THEN Pat(<<NodeOf(s, w), NodeOf(s, v)>>, <<RelAt(r, w)>>)
       ELSE LET x == Pick(more) IN
            Pat(<<NodeOf(s, w), NodeOf(s, v), NodeOf(s, Far(x, v))>>, <<RelAt(r, w), RelAt(x, v)>>))
Flip(d) == IF d = ">" THEN "<" ELSE ">"
(* a stored pattern, and one thing about it changed                        *)
Almost(pat) ==
  LET j == Pick(1..Len(pat.ns)) IN
  IF pat.rs = <<>> \/ Chance(1, 2)
  THEN [pat EXCEPT !.ns[j] = IF Chance(1, 2) THEN [@ EXCEPT !.l = Pick({"D", "Other", "A", "B"})]
                             ELSE [@ EXCEPT !.p = <<<<"a", Pick(Values)>>>>]]
  ELSE LET k == Pick(1..Len(pat.rs)) IN
       [pat EXCEPT !.rs[k] = IF Chance(1, 3) THEN [@ EXCEPT !.d = Flip(@)]
                             ELSE IF Chance(1, 2) THEN [@ EXCEPT !.n = Pick({"T", "S", "R", "OTHER"})]
                             ELSE [@ EXCEPT !.p = <<<<"name", Pick(Values)>>>>]]
Absent(z) == LET p == SomePat(z) IN
  IF Chance(1, 2) \/ p.rs = <<>> THEN [p EXCEPT !.ns = [j \in 1..Len(p.ns) |-> [p.ns[j] EXCEPT !.l = Pick({"D", "Other"})]]]
  ELSE [p EXCEPT !.rs = [j \in 1..Len(p.rs) |-> [p.rs[j] EXCEPT !.n = IF @ = "" THEN "" ELSE Pick({"T", "OTHER"})]]]

(*********************** texts *********************************************)
Laid(ts) == LET k == Pick(1..(8 + 0 * Len(ts))) IN
  IF k <= 5 THEN Plain(ts) ELSE IF k = 6 THEN Tight(ts) ELSE Wide(ts, Pick({" ", "\n", "\t", "\n  "}))
Broken == {"MAKE (:A)-[:R]-(:B);", "MAKE (:A), (:B;", "MAKE (:A{a:});", "FIND (:A)-[:r]->(:B);", "MAKE (:A); MAKE (:B{a:True});",
           "MAEK (:A);", "MAKE (:A); LOOK (:B);", "REPORT h;", "MAKE (:A); REPORT h;", "MAKE (h:A)-[h:R]->(:B);",
           "MAKE (:A)-[:R]->(:B)-[:R]->(:C)-[:R]->(:A);", "MAKE (:A), (:B), (:C#);", "FIND (:A); FIND (:B);",
           "MAKE (:A{a:1, a:2});", "MAKE (:A)", "MAKE (:A); FIND (:B{x});", "MAKE (:A); FIND (h:B); REPORT k;", ""}

(*********************** steps *********************************************)
Init == dbs = [d \in 1..2 |-> Empty] /\ log = <<>> /\ len = 0 /\ hist = <<>>
Say(d, text, mk) ==
  /\ log' = (IF Chance(1, 5) THEN Append(log, <<"use", Pick(1..3)>>) ELSE log) \o <<<<"q", d, text>>>>
  /\ len' = len + 1
  /\ hist' = Append(hist, <<text, mk>>)
Put(d, s) == dbs' = [dbs EXCEPT ![d] = s]
Order == <<"num", "inr", "il", "ir", "db">>
After(s, mk) == WriteAll(s, Plan(mk, s.ctr, 0), Order)
MakesToks(mk) == Cat([j \in 1..Len(mk) |-> MakeToks(mk[j])])

(* \E x \in {random} binds x once; a LET would be evaluated again each time *)
Make(d) ==
  \E k \in {IF Chance(3, 4) THEN 1 ELSE Pick(2..3)} :
  \E mk \in {TLCEval([j \in 1..k |-> SomePats(j)])} :
  Say(d, Laid(MakesToks(mk)), mk) /\ Put(d, After(dbs[d], mk))
Asked(s, k) ==
  IF s.nodes = <<>> \/ k = 6 THEN Absent(k)
  ELSE IF k <= 3 THEN Stored(s) ELSE IF k = 4 THEN Almost(Stored(s)) ELSE SomePat(k)
Find(d) == \E k \in {Pick(1..6)} : Say(d, Laid(FindToks(<<TLCEval(Asked(dbs[d], k))>>)), <<>>) /\ UNCHANGED dbs
MakeFind(d) ==      \* what this query makes is there for its FIND
  \E mk \in {TLCEval(<<SomePats(d)>>)} :
  LET s == After(dbs[d], mk)
      f == FindToks(<<TLCEval(IF Chance(1, 2) THEN Stored(s) ELSE Absent(d))>>)
      m == MakesToks(mk) IN
  Say(d, Laid(IF Chance(1, 2) THEN m \o f ELSE f \o m), mk) /\ Put(d, s)
Bad(d) == Say(d, Pick(Broken), <<>>) /\ UNCHANGED dbs
(* a query that was asked before, perhaps of another database              *)
Repeat(d) ==
  \E x \in {hist[IF Chance(1, 2) THEN Len(hist) ELSE Pick(1..Len(hist))]} :
  Say(d, x[1], x[2]) /\ (IF x[2] = <<>> THEN UNCHANGED dbs ELSE Put(d, After(dbs[d], x[2])))
(* a new process, or another one that is still running                     *)
Again == log' = Append(log, IF Chance(1, 2) THEN <<"sess">> ELSE <<"use", Pick(1..3)>>) /\ len' = len + 1 /\ UNCHANGED <<dbs, hist>>

Next ==
  \/ /\ len < Limit
     /\ \E d \in {IF Chance(1, 4) THEN 2 ELSE 1} : \E k \in {Pick(1..24)} :
        IF k <= 7 THEN Make(d) ELSE IF k <= 13 THEN Find(d) ELSE IF k <= 15 THEN MakeFind(d)
        ELSE IF k <= 17 THEN Bad(d) ELSE IF k <= 21 /\ hist # <<>> THEN Repeat(d) ELSE Again
  \/ /\ len = Limit
     /\ PrintT("SCRIPT|" \o ToJson(log))
     /\ len' = len + 1 /\ UNCHANGED <<dbs, log, hist>>
Spec == Init /\ [][Next]_vars
=============================================================================

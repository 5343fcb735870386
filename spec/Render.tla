------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* From meaning back to text: the tokens of a query, and their layouts.    *)
(* A token is a string; "~g" between two tokens: white space is not usual  *)
(* there; "~s" white space usual, "~w" white space needed.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Chars(str) == [j \in 1..Len(str) |-> SubSeq(str, j, j)]
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
CatS(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

(* ps: sequence of <<name, tokens of the value>>                           *)
PropToks(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE <<"{">> \o Cat([j \in 1..Len(ps) |->
          (IF j > 1 THEN <<",">> ELSE <<>>) \o <<ps[j][1], ":">> \o ps[j][2]]) \o <<"}">>
Opt(x) == IF x = "" THEN <<>> ELSE <<x>>
NodeToks(n) == <<"(">> \o Opt(n.h) \o <<":", n.l>> \o PropToks(n.p) \o <<")">>
RelName(r) == IF r.n = "" THEN (IF r.p = <<>> THEN <<>> ELSE <<":">>) ELSE <<":", r.n>>
RelToks(r) ==
  LET body == <<"~g", "[">> \o Opt(r.h) \o RelName(r) \o PropToks(r.p) \o <<"]", "~g">> IN
  (IF r.d \in {"<", "<>"} THEN <<"<", "~g">> ELSE <<"~g">>) \o <<"-">> \o body \o <<"-">>
    \o (IF r.d \in {">", "<>"} THEN <<"~g", ">">> ELSE <<>>)
PatToks(pat) ==
  NodeToks(pat.ns[1]) \o
  Cat([j \in 1..Len(pat.rs) |-> RelToks(pat.rs[j]) \o NodeToks(pat.ns[j + 1])])
PatsToks(ps) == Cat([j \in 1..Len(ps) |-> (IF j > 1 THEN <<",">> ELSE <<>>) \o PatToks(ps[j])])
MakeToks(ps) == <<"MAKE", "~s">> \o PatsToks(ps) \o <<";">>
FindToks(ps) == <<"FIND", "~s">> \o PatsToks(ps) \o <<";">>
ReportToks(hs) ==
  <<"REPORT", "~w">> \o Cat([j \in 1..Len(hs) |-> (IF j > 1 THEN <<",">> ELSE <<>>) \o <<hs[j]>>]) \o <<";">>

Gaps == {"~g", "~s", "~w"}
IsGap(x) == x \in Gaps
(* the usual layout                                                        *)
Plain(ts) ==
  CatS([j \in 1..Len(ts) |->
     IF ts[j] = "~g" THEN "" ELSE IF IsGap(ts[j]) THEN " "
     ELSE IF ts[j] \in {",", ";"} /\ j < Len(ts) THEN ts[j] \o " " ELSE ts[j]])
(* as little white space as possible                                       *)
Tight(ts) == CatS([j \in 1..Len(ts) |-> IF ts[j] = "~w" THEN " " ELSE IF IsGap(ts[j]) THEN "" ELSE ts[j]])
(* white space w wherever it is allowed                                    *)
Wide(ts, w) ==
  CatS([j \in 1..Len(ts) |->
     IF IsGap(ts[j]) THEN (IF ts[j] = "~g" THEN "" ELSE w)
     ELSE IF j > 1 /\ ~IsGap(ts[j-1]) THEN w \o ts[j] ELSE ts[j]])
(* the places where white space may be put, and the layout with it at one  *)
Places(ts) == {j \in 1..(Len(ts) - 1) : ts[j] # "~g" /\ ts[j + 1] # "~g"} \cup {0, Len(ts)}
AtPlace(ts, k, w) ==
  (IF k = 0 THEN w ELSE "") \o
  CatS([j \in 1..Len(ts) |->
     (IF ts[j] = "~w" THEN " " ELSE IF IsGap(ts[j]) THEN "" ELSE ts[j]) \o (IF j = k THEN w ELSE "")])
=============================================================================

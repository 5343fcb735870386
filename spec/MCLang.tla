------------------------------- MODULE MCLang -------------------------------
(***************************************************************************)
(* The query language a second time, from the side of the one who writes:  *)
(* a query grows node by node, relationship by relationship, statement by  *)
(* statement, and with at most one fault.  The writer keeps what was meant *)
(* and which properties demand that the query is rejected.  In every state *)
(* between two statements the text, in every layout, is read with Meaning  *)
(* of Wql.tla, and must be read as it was meant.                           *)
(*                                                                         *)
(* Reader   "true", or a reader with a flaw that a property must show:     *)
(*          "skip"    what cannot be read is left out                      *)
(*          "squeeze" white space is removed before reading                *)
(*          "greedy"  a MAKE takes in the patterns of the FINDs as well    *)
(*          "reorder" the MAKEs are read from the last to the first        *)
(*          "C11", "C12", "C13"  the rules of that property are not known  *)
(* Deep     more handles, properties and relationships to choose from     *)
(* Places1  white space at every single place as well                      *)
(* Builder  "true", or a builder of search requests with a flaw:           *)
(*          "left"    a relationship is always kept with the node before it*)
(*          "single"  the node of a pattern of one is put in the middle    *)
(***************************************************************************)
EXTENDS Wql, Build, Request, TLC, Json

CONSTANTS Reader, Builder, MaxParts, MaxStmts, MaxFaults, Deep, Places1, Telling

VARIABLES stmts, kw, toks, pats, pat, used, want, wrong, n
vars == <<stmts, kw, toks, pats, pat, used, want, wrong, n>>
(* stmts  the tokens of the statements that have ended                     *)
(* kw     the statement being written, "" between statements               *)
(* toks   its tokens, pats its patterns that have ended, pat the one being *)
(*        written,  used the handles in it                    *)
(* want   what was written: makes, finds, reps, handles of FINDs, REPORTs  *)
(* wrong  the properties broken on purpose; n parts written                *)

Nothing == [makes |-> <<>>, finds |-> <<>>, reps |-> 0, fh |-> {}, rh |-> {}]
Init == /\ stmts = <<>> /\ kw = "" /\ toks = <<>> /\ pats = <<>> /\ pat = Pat(<<>>, <<>>) /\ used = {}
        /\ want = Nothing /\ wrong = {} /\ n = 0
Faulty(S) == Cardinality(wrong) = 0 /\ MaxFaults > 0 /\ wrong' = S
Fine == wrong' = wrong
Room(k) == n + k <= MaxParts

(************************ what can be written ******************************)
Num == << <<"a", <<"1">>>> >>
Txt == << <<"b", <<"' true '">>>>, <<"a", <<"[", "null", ",", "\"x y\"", "]">>>> >>
Hs == IF Deep THEN {"", "h", "k"} ELSE {"", "h"}
PropSets == IF Deep THEN {<<>>, Num, Txt} ELSE {<<>>, Txt}
Nodes(k) == {Node(h, l, p) : h \in Hs, l \in (IF k = 1 THEN {"A"} ELSE {"A", "Bb"}), p \in PropSets}
Rels == {Rel(h, nm, p, d) : h \in (IF Deep THEN {"", "h"} ELSE {""}), nm \in {"R", ""},
                            p \in (IF Deep THEN {<<>>, Num} ELSE {<<>>}), d \in Dirs}

Begin(k, word) ==
  /\ kw = "" /\ Len(stmts) < MaxStmts /\ Room(1)
  /\ kw' = k /\ toks' = <<word, IF k = "report" THEN "~w" ELSE "~s">> /\ pats' = <<>> /\ pat' = Pat(<<>>, <<>>) /\ used' = {}
  /\ n' = n + 1 /\ UNCHANGED <<stmts, want>>
Start == \/ Fine /\ \E x \in {<<"make", "MAKE">>, <<"find", "FIND">>, <<"report", "REPORT">>} : Begin(x[1], x[2])
         \/ Faulty({"C12", "C08"}) /\ \E x \in {<<"make", "MKAE">>, <<"make", "FIDN">>} : Begin(x[1], x[2])
         \/ Faulty({"C08"}) /\ Begin("make", "STORE")

(* a node is due at the start of a pattern and after a relationship        *)
Due == kw \in {"make", "find"} /\ Len(pat.rs) = Len(pat.ns)
Handle(h) == used' = IF h = "" THEN used ELSE used \cup {h}
Add(x, ts) == /\ pat' = [pat EXCEPT !.ns = Append(@, x)]
              /\ toks' = toks \o ts /\ n' = n + 1 /\ Handle(x.h) /\ UNCHANGED <<stmts, kw, pats, want>>
Kept(x) == [x EXCEPT !.p = Expect(@)]
(* what can be wrong with a node                                           *)
WithProps(h, l, ts) == <<"(">> \o Opt(h) \o <<":", l, "{">> \o ts \o <<"}", ")">>
BadNodes == {<<{"C12", "C08"}, <<"(", ":", "A">>>>, <<{"C12", "C08"}, <<":", "A", ")">>>>,       \* a bracket is missing
             <<{"C12", "C08"}, <<"(", ":", "A", "#", ")">>>>, <<{"C08"}, <<"(", ":", ")">>>>, <<{"C08"}, <<"(", "A", ")">>>>,
             <<{"C12", "C08"}, WithProps("", "A", <<"a", ":">>)>>, <<{"C12", "C08"}, WithProps("", "A", <<"a", ":", "1", ",", "b">>)>>,
             <<{"C12", "C08"}, WithProps("", "A", <<"a", ":", ",", "b", ":", "2">>)>>, <<{"C12", "C08"}, WithProps("", "A", <<"a", "~w", "1">>)>>,
             <<{"C12"}, WithProps("", "A", <<"a", ":", "TRUE">>)>>, <<{"C12"}, WithProps("", "A", <<"a", ":", "[", "1", ",", "Null", "]">>)>>,
             <<{"C08"}, WithProps("", "A", <<"a", ":", "1", ",", "a", ":", "2">>)>>, <<{"C08"}, WithProps("", "A", <<"a", ":", "1", "+", "2">>)>>,
             <<{"C08"}, WithProps("", "A", <<"a", ":", "'x'", "y">>)>>, <<{"C12", "C08"}, <<"(", ":", "A", "{", "a", ":", "1", ")">>>>}
PutNode ==
  /\ Due /\ Room(1)
  /\ \/ \E x \in Nodes(IF pat.ns = <<>> THEN 1 ELSE 2) :
           /\ IF Len(pat.ns) = 3 THEN Faulty({"C12", "C08"})
              ELSE IF x.h # "" /\ x.h \in used THEN Faulty({"C13"}) ELSE Fine
           /\ Add(Kept(x), NodeToks(x))
     \/ \E b \in BadNodes : Faulty(b[1]) /\ Add(N0("A"), b[2])
AddRel(x, ts) == /\ pat' = [pat EXCEPT !.rs = Append(@, x)]
                 /\ toks' = toks \o ts /\ n' = n + 1 /\ Handle(x.h) /\ UNCHANGED <<stmts, kw, pats, want>>
PutRel ==
  /\ kw \in {"make", "find"} /\ ~Due /\ Room(2) /\ (Len(pat.ns) < 3 \/ wrong = {})
  /\ \/ \E x \in Rels : /\ (IF x.h # "" /\ x.h \in used THEN Faulty({"C13"}) ELSE Fine)
                        /\ AddRel(Kept(x), RelToks(x))
     \/ \E d \in {"", "<>"}, nm \in {"R", ""} : Faulty({"C11"}) /\ AddRel(R0(nm, ">"), RelToks(R0(nm, d)))
     \/ \E d \in Dirs, nm \in {"r", "Rel", "RELs", "a_B"} : Faulty({"C11"}) /\ AddRel(R0(nm, d), RelToks(R0(nm, d)))
     \/ Faulty({"C12", "C08"}) /\ AddRel(R0("R", ">"), <<"~g", "-", "~g", ":", "R", "]", "~g", "-", "~g", ">">>)
     \/ Faulty({"C08"}) /\ AddRel(R0("R", ">"), <<"~g", "-", "~g", "-", "~g", ">">>)
Comma ==
  /\ kw \in {"make", "find"} /\ ~Due /\ Room(1)
  /\ toks' = Append(toks, ",") /\ pats' = Append(pats, pat) /\ pat' = Pat(<<>>, <<>>) /\ used' = {}
  /\ Fine /\ want' = [want EXCEPT !.fh = @ \cup (IF kw = "find" THEN used ELSE {})]
  /\ UNCHANGED <<stmts, kw, n>>
Amiss == kw \in {"make", "find"} /\ ~Due /\ \E x \in {"x", ")", ".", "?", "'t'", "7"} :
         /\ Faulty(IF x = ")" THEN {"C12", "C08"} ELSE {"C08"})
         /\ toks' = toks \o <<"~s", x>> /\ UNCHANGED <<stmts, kw, pats, pat, used, want, n>>
(* the end of a statement; a missing semicolon only at the end of all      *)
Close(w, ts) == /\ want' = w /\ stmts' = Append(stmts, ts) /\ kw' = "" /\ toks' = <<>> /\ pats' = <<>> /\ pat' = Pat(<<>>, <<>>) /\ used' = {}
                /\ UNCHANGED n
Semi ==
  /\ kw \in {"make", "find"} /\ ~Due
  /\ LET ps == Append(pats, pat)
         w == IF kw = "make" THEN [want EXCEPT !.makes = Append(@, ps)]
              ELSE [want EXCEPT !.finds = Append(@, ps), !.fh = @ \cup used] IN
     \/ Fine /\ Close(w, Append(toks, ";"))
     \/ Faulty({"C12", "C08"}) /\ Close(w, toks) /\ Len(stmts) = MaxStmts - 1
ItemsOf == {<<<<"h">>, {"h"}>>, <<<<"h", ",", "k">>, {"h", "k"}>>, <<<<"k", ".", "a">>, {"k"}>>, <<<<"wn", "(", "h", ")">>, {"h"}>>}
Report == /\ kw = "report"
          /\ \E x \in ItemsOf : Fine /\ Close([want EXCEPT !.reps = @ + 1, !.rh = @ \cup x[2]], toks \o x[1] \o <<";">>)
Next == Start \/ PutNode \/ PutRel \/ Comma \/ Amiss \/ Semi \/ Report
Spec == Init /\ [][Next]_vars

(************************ layouts ******************************************)
AllToks == Cat(stmts)
Recase(ts, v) == [j \in 1..Len(ts) |->
   CASE ts[j] = "MAKE" -> v[1] [] ts[j] = "FIND" -> v[2] [] ts[j] = "REPORT" -> v[3] [] OTHER -> ts[j]]
Spaces == {" ", "\n", "\t "}
Styles(ts) == {Plain(ts), Tight(ts), Wide(ts, "\n"), Wide(Recase(ts, <<"make", "find", "report">>), " "),
               Tight(Recase(ts, <<"mAKe", "FinD", "Report">>))}
         \cup IF Places1 THEN {AtPlace(ts, k, w) : k \in Places(ts), w \in Spaces} ELSE {}

(************************ readers ******************************************)
NotBlank(c) == c \notin Blanks
Blind(m, p) == LET y == {x \in m.why : x[1] # p} IN
               [m EXCEPT !.why = y, !.cls = IF @ = "bad" /\ y = {} THEN "ok" ELSE @]
Read(text) ==
  LET m == Meaning(text) IN
  CASE Reader = "true" -> m
    [] Reader = "skip" -> [m EXCEPT !.cls = IF @ = "bad" /\ m.makes # <<>> THEN "ok" ELSE @]
    [] Reader = "squeeze" -> Meaning(SelectSeq(text, NotBlank))
    [] Reader = "reorder" -> [m EXCEPT !.makes = Reverse(@)]
    [] Reader = "greedy" -> [m EXCEPT !.makes = @ \o m.finds]
    [] OTHER -> Blind(m, Reader)
Ready == kw = "" /\ stmts # <<>>

(* what is wrong with the query as a whole                                 *)
Global == IF Len(want.finds) > 1 \/ want.reps > 1 \/ (want.reps > 0 /\ want.finds = <<>>)
             \/ (Len(want.finds) = 1 /\ ~(want.rh \subseteq want.fh)) THEN {"C13"} ELSE {}
Expected == IF wrong # {} THEN wrong ELSE Global
AsMeant(m) ==
  IF Expected = {} THEN m.cls = "ok" /\ m.makes = want.makes /\ m.finds = want.finds /\ m.reps = want.reps
  ELSE m.cls = "bad" /\ \A p \in Expected : \E y \in m.why : y[1] = p
Plainly == Read(Chars(Plain(AllToks)))

(************************ the properties ***********************************)
(* well formed: read as written, nothing less and nothing more             *)
C08(m) == Expected = {} => AsMeant(m)
(* a broken rule is always found, whichever place it is in                 *)
Refuses(m, p) == p \in Expected => m.cls = "bad" /\ \E y \in m.why : y[1] = p
C10(m) == \A x \in Styles(AllToks) : LET r == Read(Chars(x)) IN r = m \/ (Expected # {} /\ r.cls = "bad")
Build(p) ==
  LET g == Requested(p) IN
  CASE Builder = "true" -> g
    [] Builder = "left" -> [g EXCEPT !.ns = [j \in 1..3 |-> IF j < Len(p.ns) THEN [g.ns[j] EXCEPT !.rels =
                              <<[n |-> p.rs[j].n, h |-> p.rs[j].h, p |-> p.rs[j].p]>>] ELSE [g.ns[j] EXCEPT !.rels = <<>>]]]
    [] Builder = "single" -> IF Len(p.ns) = 1 THEN [g EXCEPT !.ns = <<g.ns[2], g.ns[1], g.ns[3]>>] ELSE g
(* the request has what was written                                       *)



C21(m) == Expected = {} /\ m.cls = "ok" =>
         \A x \in Range(want.finds) : \A p \in Range(x) : RequestFaults(p, Build(p)) = {}
Language == Ready => LET m == Plainly IN
  /\ C08(m) /\ \A p \in {"C08", "C11", "C12", "C13"} : Refuses(m, p)
  /\ C10(m) /\ C21(m)

(* the texts, for the real code                                            *)
Style == LET s == SetToSeq(Styles(AllToks)) IN s[(Len(AllToks) % Len(s)) + 1]
Tell == Ready /\ Telling => PrintT("TEXT|" \o ToJson(Style))
=============================================================================

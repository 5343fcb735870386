-------------------------------- MODULE Enum --------------------------------
(***************************************************************************)
(* Complete families of query texts, each complete within its bounds.      *)
(* IOEnv.FAMILY names the family; the texts are written to IOEnv.OUT and   *)
(* run on the real code.  On the way the language is checked against its   *)
(* own rendering: the meaning of a rendered query is that query.           *)
(***************************************************************************)
EXTENDS Wql, Build, TLC, Json, IOUtils

ExpectPat(pat) == [ns |-> [j \in 1..Len(pat.ns) |-> [pat.ns[j] EXCEPT !.p = Expect(@)]],
                   rs |-> [j \in 1..Len(pat.rs) |-> [pat.rs[j] EXCEPT !.p = Expect(@)]]]
ExpectPats(ps) == [j \in 1..Len(ps) |-> ExpectPat(ps[j])]

(*********************** shapes ********************************************)
Labs == {"A", "B"}
Nms == {"R", "S", ""}
Pats1 == {Pat(<<N0(a)>>, <<>>) : a \in Labs}
Pats2 == {Pat(<<N0(a), N0(b)>>, <<R0(n, d)>>) : a \in Labs, b \in Labs, n \in Nms, d \in Dirs}
Pats3 == {Pat(<<N0(a), N0(b), N0(c)>>, <<R0(n, d), R0(o, e)>>) :
            a \in Labs, b \in Labs, c \in {"A", "C"}, n \in Nms, o \in Nms, d \in Dirs, e \in Dirs}
Shapes == Pats1 \cup Pats2 \cup Pats3
Few == {Pat(<<N0("A")>>, <<>>), Pat(<<N0("A"), N0("B")>>, <<R0("R", ">")>>),
        Pat(<<N0("B"), N0("A")>>, <<R0("S", "<")>>),
        Pat(<<N0("A"), N0("B"), N0("C")>>, <<R0("R", ">"), R0("", "<")>>),
        Pat(<<N0("C"), N0("C"), N0("C")>>, <<R0("", "<"), R0("T", ">")>>)}
(* every shape alone; every pair and triple of the few in one statement and in several *)
MakesOf == {<< <<p>> >> : p \in Shapes}
      \cup {<< <<p, q>> >> : p \in Few, q \in Few} \cup {<< <<p>>, <<q>> >> : p \in Few, q \in Few}
      \cup {<< <<p>>, <<q, r>> >> : p \in Few, q \in Few, r \in Few}
MakesToks(mk) == Cat([j \in 1..Len(mk) |-> MakeToks(mk[j])])
RoundTrip(mk, text) ==
  LET m == Meaning(Chars(text)) IN
  \/ m.cls = "ok" /\ m.makes = [j \in 1..Len(mk) |-> ExpectPats(mk[j])] /\ m.finds = <<>>
  \/ PrintT("ROUNDTRIP " \o text) /\ FALSE

(*********************** values ********************************************)
Scalars == {<<"0">>, <<"42">>, <<"3.14">>, <<"2.0">>, <<"0.5">>, <<"10.10">>, <<"true">>, <<"false">>, <<"null">>,
            <<"'x'">>, <<"\"x\"">>, <<"'3 4'">>, <<"\"2_4\"">>, <<"'2'">>, <<"\"it's\"">>, <<"'a \"b\"'">>,
            <<"'  two  '">>, <<"'nullable'">>, <<"'is true'">>, <<"\"false_\"">>, <<"'3.14'">>, <<"'x.y@z'">>,
            <<"'A'">>, <<"'make find'">>, <<"'True story'">>}
ListOf(vs) == <<"[">> \o Cat([j \in 1..Len(vs) |-> (IF j > 1 THEN <<",">> ELSE <<>>) \o vs[j]]) \o <<"]">>
Lists == {ListOf(<<a>>) : a \in Scalars} \cup {ListOf(<<a, b>>) : a \in Scalars, b \in Scalars}
         \cup {ListOf(<<a, <<"1">>, b>>) : a \in {<<"null">>, <<"'x'">>, <<"3.14">>}, b \in {<<"true">>, <<"'null'">>, <<"0">>}}
         \cup {ListOf(<<<<"'true'">>>>), ListOf(<<<<"'null'">>, <<"null">>>>), ListOf(<<<<"'1'">>, <<"1">>>>)}
(* a value in each of the five places of a pattern, alone, first, last     *)
PropsWith(v) == {<< <<"a", v>> >>, << <<"a", v>>, <<"b", <<"1">>>> >>, << <<"b", <<"'z'">>>>, <<"a", v>> >>,
                 << <<"b", ListOf(<<<<"1">>, <<"'2'">>>>)>>, <<"a", v>>, <<"c", <<"null">>>> >>}
Placed(ps, k) == Pat(<<Node("", "A", IF k = 1 THEN ps ELSE <<>>), Node("", "B", IF k = 2 THEN ps ELSE <<>>),
                       Node("", "C", IF k = 3 THEN ps ELSE <<>>)>>,
                     <<Rel("", "R", IF k = 4 THEN ps ELSE <<>>, ">"), Rel("", "S", IF k = 5 THEN ps ELSE <<>>, "<")>>)
ValueMakes == {<< <<Placed(ps, k)>> >> : k \in 1..5, ps \in UNION {PropsWith(v) : v \in Scalars}}
         \cup {<< <<Pat(<<Node("", "A", ps)>>, <<>>)>> >> : ps \in UNION {PropsWith(v) : v \in Lists}}
         \cup {<< <<Placed(<< <<"a", v>> >>, k)>> >> : k \in 1..5, v \in Lists}

(*********************** layouts *******************************************)
P1 == << <<"a", <<"1">>>>, <<"b", ListOf(<<<<"true">>, <<"'x y'">>>>)>> >>
Base1 == MakeToks(<<Pat(<<Node("h", "A", P1), Node("", "B", <<>>)>>, <<Rel("r", "R", << <<"c", <<"'z'">>>> >>, ">")>>)>>)
Base2 == MakeToks(<<Pat(<<N0("A"), N0("B"), N0("C")>>, <<R0("R", "<"), R0("S", ">")>>), Pat(<<N0("D")>>, <<>>)>>)
Base3 == MakeToks(<<Pat(<<N0("A")>>, <<>>)>>) \o FindToks(<<Pat(<<Node("h", "A", <<>>), Node("k", "B", <<>>)>>, <<R0("R", ">")>>)>>)
           \o ReportToks(<<"h", "k">>)
Base4 == FindToks(<<Pat(<<Node("h", "A", << <<"a", <<"3.14">>>> >>)>>, <<>>)>>) \o MakeToks(<<Pat(<<N0("B"), N0("A")>>, <<R0("", "<")>>)>>)
Base5 == MakeToks(<<Pat(<<N0("A")>>, <<>>)>>) \o MakeToks(<<Pat(<<Node("", "B", << <<"x", <<"null">>>> >>)>>, <<>>)>>)
Bases == {Base1, Base2, Base3, Base4, Base5}
White == {" ", "\n", "\t", "  ", "\r\n", "\n\n\t"}
KwCase(ts, v) == [j \in 1..Len(ts) |->
   CASE ts[j] = "MAKE" -> v[1] [] ts[j] = "FIND" -> v[2] [] ts[j] = "REPORT" -> v[3] [] OTHER -> ts[j]]
Cases == {<<"MAKE", "FIND", "REPORT">>, <<"make", "find", "report">>, <<"Make", "Find", "Report">>,
          <<"mAKe", "fINd", "rePORt">>}
Layouts(ts) == {Plain(KwCase(ts, v)) : v \in Cases} \cup {Tight(KwCase(ts, v)) : v \in Cases}
          \cup {Wide(KwCase(ts, v), w) : v \in Cases, w \in White}
          \cup {AtPlace(ts, k, w) : k \in Places(ts), w \in White}
SameMeaning(ts) == LET m == Meaning(Chars(Plain(ts))) IN
   /\ m.cls = "ok"
   /\ \A x \in Layouts(ts) : Meaning(Chars(x)) = m \/ (PrintT("LAYOUT " \o x) /\ FALSE)

(*********************** statements ****************************************)
Stmts == [m1 |-> "MAKE (:A);", m2 |-> "MAKE (k:B)-[:R]->(:A);", m3 |-> "make (:A), (h:C);", f1 |-> "FIND (h:A);", f2 |-> "find (h:A)<-[k:R]-(:B);",
          r1 |-> "REPORT h;", r2 |-> "report k;", r3 |-> "REPORT h, k;", r4 |-> "Report * ;", r5 |-> "REPORT wn(h);", r6 |-> "REPORT *, k;", f3 |-> "FIND (:B), (k:A)-[:R]->(:B);", x1 |-> "MAEK (:A);", x2 |-> "LOOK (:A);",
          x3 |-> "MAKE (:A)-[:R]-(:B);", x4 |-> "MAKE (:A{a:});", c |-> "CRITERIA h.a = 1;"]
Keys == DOMAIN Stmts
StmtTexts == {Stmts[a] : a \in Keys} \cup {Stmts[a] \o " " \o Stmts[b] : a \in Keys, b \in Keys}
        \cup {Stmts[a] \o "\n" \o Stmts[b] \o Stmts[d] : a \in Keys, b \in Keys, d \in Keys \ {"m3", "x2", "x4", "c"}}

(*********************** handles *******************************************)
Hs == {"", "h", "k"}
HandlePats == {Pat(<<Node(a, "A", <<>>)>>, <<>>) : a \in Hs}
         \cup {Pat(<<Node(a, "A", <<>>), Node(b, "B", <<>>)>>, <<Rel(r, "R", <<>>, ">")>>) : a \in Hs, b \in Hs, r \in Hs}
         \cup {Pat(<<Node(a, "A", <<>>), Node(b, "B", <<>>), Node(c, "C", <<>>)>>, <<Rel(r, "R", <<>>, ">"), Rel(s, "S", <<>>, "<")>>) :
                 a \in Hs, b \in Hs, c \in Hs, r \in Hs, s \in Hs}
HandleTexts == {Plain(MakeToks(<<p>>)) : p \in HandlePats} \cup {Plain(FindToks(<<p>>)) : p \in HandlePats}
          \cup {Plain(MakeToks(<<p, q>>)) : p \in HandlePats, q \in {x \in HandlePats : Len(x.ns) <= 2 /\ x.ns[1].h = "h"}}
          \cup {Plain(FindToks(<<p>>) \o ReportToks(h)) : p \in {x \in HandlePats : x.ns[1].h # "k"}, h \in {<<"h">>, <<"k">>, <<"h", "k">>}}
          \cup {Plain(ReportToks(h) \o MakeToks(<<Pat(<<Node("k", "A", <<>>)>>, <<>>)>>) \o FindToks(<<p>>)) :
                  p \in {x \in HandlePats : Len(x.ns) <= 2}, h \in {<<"h">>, <<"k">>}}

(*********************** directions and names ******************************)
AllDirs == {">", "<", "", "<>"}
AllNames == {"R", "r", "Rr", "rR", "REL_a", "R_1", ""}
DirPats == {Pat(<<N0("A"), N0("B")>>, <<R0(n, d)>>) : n \in AllNames, d \in AllDirs}
      \cup {Pat(<<N0("A"), N0("B"), N0("C")>>, <<R0("R", ">"), R0(n, d)>>) : n \in AllNames, d \in AllDirs}
      \cup {Pat(<<N0("A"), N0("B"), N0("C")>>, <<R0(n, d), R0("S", "<")>>) : n \in AllNames, d \in AllDirs}
      \cup {Pat(<<N0("A"), N0("B")>>, <<Rel("h", n, << <<"a", <<"'x'">>>> >>, d)>>) : n \in AllNames, d \in AllDirs}
Fine == Pat(<<N0("D"), N0("E")>>, <<R0("T", ">")>>)
DirTexts == UNION {{Plain(MakeToks(<<p>>)), Plain(FindToks(<<p>>)), Plain(MakeToks(<<Fine, p>>)), Plain(MakeToks(<<p, Fine>>)),
                    Plain(MakeToks(<<Fine>>) \o MakeToks(<<p>>)), Plain(MakeToks(<<p>>) \o MakeToks(<<Fine>>)),
                    Plain(MakeToks(<<Fine>>) \o FindToks(<<p>>)), Plain(FindToks(<<p>>) \o MakeToks(<<Fine>>)),
                    Plain(FindToks(<<Fine>>) \o MakeToks(<<p>>)), Tight(MakeToks(<<Fine, Fine, p>>))} : p \in DirPats}

(*********************** near queries **************************************)
Alphabet == {"(", ")", "[", "]", "{", "}", ":", ",", ";", ".", "-", "<", ">", "'", "#", "x", "1", "MAKE", "true", "True", "?"}
Without(ts, k) == SubSeq(ts, 1, k - 1) \o SubSeq(ts, k + 1, Len(ts))
Insert(ts, k, x) == SubSeq(ts, 1, k) \o <<x>> \o SubSeq(ts, k + 1, Len(ts))
Near(ts) == {Without(ts, k) : k \in 1..Len(ts)} \cup {Insert(ts, k, ts[k]) : k \in 1..Len(ts)}
       \cup {Insert(ts, k, x) : k \in 0..Len(ts), x \in Alphabet}
       \cup {[ts EXCEPT ![k] = x] : k \in 1..Len(ts), x \in Alphabet}
NearTexts == UNION {{Plain(x) : x \in Near(ts)} : ts \in {Base1, Base2, Base3}}

(*********************** searching *****************************************)
(* texts of FIND over every shape; run on the databases the scripts make   *)
FindPats == Shapes \cup {Pat(<<Node("", "A", << <<"a", <<"1">>>> >>)>>, <<>>), Pat(<<Node("h", "D", <<>>)>>, <<>>),
              Pat(<<N0("D"), N0("A")>>, <<R0("T", ">")>>), Pat(<<N0("A"), N0("A")>>, <<R0("T", "<")>>)}
FindTexts == {Plain(FindToks(<<p>>)) : p \in FindPats}

(*********************** the documentation *********************************)
(* the queries shown in the README files and the example queries           *)
DocMakes == {"MAKE (:NodeLabel);",
   "MAKE (:NodeLabel), (:NodeLabel);",
   "MAKE (node:NodeLabel);",
   "MAKE (node:NodeLabel {int: 1, str: '2', str2:\"2_4\", float: 3.14, list: [1, '2', \"2_4\", \"3 4\", 3.14]});",
   "MAKE (:NodeLabel)-[]->(:NodeLabel);",
   "MAKE (:NodeLabel)-[:REL]->(:NodeLabel);",
   "MAKE (:NodeLabel{int: 1})-[rel1:REL{str: '2'}]->(:NodeLabel{str2:\"2_4\"});",
   "MAKE (:NodeLabel{int: 1})-[rel1:REL{str: '2'}]->(:NodeLabel{str2:\"2_4\"})<-[rel2:REL2{float: 3.14}]-(:NodeLabel2{list: [1, '2', \"2_4\", \"3 4\", 3.14]});",
   "MAKE (:NodeLabel{int: 1, float: 3.14, bool: true, bool2: false, none: null, str: '2', str2:\"2_4\", str3: \"3 4 5\", email: 'foo@bar.net',  list: [1, 3.14, true, false, '2', \"2_4\", \"3 4\", \"foo@bar.net\"]});",
   "MAKE (n:NodeLabel)-[r:REL]->(m:NodeLabel);",
   "MAKE (:NodeLabel{int: 1, str: '2', str2:\"2_4\", float: 3.14, bool: false, none: null, list: [1, '2', \"2_4\", \"3 4\", 3.14]})<-[r:REL{int: 1, str: '2', str2:\"2_4\", float: 3.14, list: [1, '2', \"2_4\", \"3 4\", 3.14]}]-(foo2:NodeLabel {int: 1, str: '2', str2:\"2_4\", float: 3.14, list: [1, '2', \"2_4\", \"3 4\", 3.14]} ) <-[r2:REL{int: 1, str: '2', str2:\"2_4\", float: 3.14, list: [1, '2', \"2_4\", \"3 4\", 3.14]}]- (foo3:NodeLabel {int: 1, str: '2', str2:\"2_4\", float: 3.14, list: [1, '2', \"2_4\", \"3 4\", 3.14]} );"}
DocFinds == {"FIND (:NodeLabel);",
   "FIND (NodeHandle:NodeLabel);",
   "FIND (:NodeLabel {prop1: \"foo\"});",
   "FIND (:NodeLabel1), (:NodeLabel2);",
   "FIND (node:A)-[r]->(node2:B);",
   "FIND (node:A)-[:REL]->(node2:B);",
   "FIND (node:A)-[RelHandle:REL]->(node2:B);",
   "FIND (node:A)-[:REL {prop1: \"foo\"}]->(node2:B);",
   "FIND (node:A)<-[r1:REL {relprop1: \"foo\"}]-(node2:B)-[r2:REL2 {relprop2: \"bar\"}]->(node3:C);"}
DocReports == {"FIND (foo:Node);\n   REPORT *;",
   "FIND (foo:Node);\nREPORT foo;",
   "FIND (foo:Node);\nREPORT foo.bar;",
   "FIND (foo:Node);\nREPORT foo.bar, foo.baz, foo.qux;",
   "FIND (foo:Node)-[r:REL]->(foo2:Node2);\nREPORT r;",
   "FIND (foo:Node)-[r:REL]->(foo2:Node2);\nREPORT r.bar;",
   "FIND (foo:Node)-[r:REL]->(bar:Node2);\nREPORT r.bar, r.baz, r.qux;",
   "FIND (foo:Node)-[r:REL]->(bar:Node2);\nREPORT foo.bar, foo.baz, foo.qux, r.bar, r.baz, r.qux;",
   "FIND (p:NodeLabel)-[r2:REL]->(q:NodeLabel);\nREPORT wn(p), wn(q);"}
DocSearches == DocFinds \cup DocReports
DocTexts == DocMakes \cup DocSearches \cup {a \o "\n" \o b : a \in DocMakes, b \in DocSearches} \cup {b \o " " \o a : a \in DocMakes, b \in DocSearches}
       \cup {a \o b : a \in DocMakes, b \in DocMakes}

(*********************** output ********************************************)
Family == IOEnv.FAMILY
Texts == CASE Family = "shapes" -> {Plain(MakesToks(mk)) : mk \in MakesOf}
           [] Family = "values" -> {Plain(MakesToks(mk)) : mk \in ValueMakes}
           [] Family = "layouts" -> UNION {Layouts(ts) : ts \in Bases}
           [] Family = "statements" -> StmtTexts
           [] Family = "handles" -> HandleTexts
           [] Family = "directions" -> DirTexts
           [] Family = "near" -> NearTexts
           [] Family = "finds" -> FindTexts
           [] Family = "docs" -> DocTexts
Check == CASE Family = "shapes" -> \A mk \in MakesOf : RoundTrip(mk, Plain(MakesToks(mk))) /\ RoundTrip(mk, Tight(MakesToks(mk)))
           [] Family = "values" -> \A mk \in ValueMakes : RoundTrip(mk, Plain(MakesToks(mk)))
           [] Family = "layouts" -> \A ts \in Bases : SameMeaning(ts)
           [] Family = "docs" -> \A x \in DocTexts : Meaning(Chars(x)).cls = "ok" \/ (PrintT("DOC " \o x) /\ FALSE)
           [] OTHER -> TRUE
ASSUME Check
ASSUME LET s == SetToSeq(Texts) IN
       ndJsonSerialize(IOEnv.OUT, [j \in 1..Len(s) |-> [t |-> s[j]]]) /\ PrintT("TEXTS " \o ToString(Len(s)))
=============================================================================

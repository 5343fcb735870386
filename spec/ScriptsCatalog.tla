--------------------------- MODULE ScriptsCatalog ---------------------------
(* Generator of scripts for the folder of databases (see Scripts.tla).     *)
(* Follows which names are taken.  @BASE, @LONG, @NUL are put in by the    *)
(* driver.  What must happen is decided by CatalogTrace.tla.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES cat, log, len
vars == <<cat, log, len>>
Limit == atoi(IOEnv.LEN)
Pick(S) == RandomElement(S)
Usual == {"a", "b", "ab", "abc", "my_db", "db1", "A", "B", "_a", "_", "a1", "a10", "a9", "Ab", "aB", "Z", "zz", "db_2", "1", "10", "9"}
Odd == {"a*", "*", "?", "[a]", "a b", " a", "a ", "a.b", ".a", "a.", "...", "-a", "~", "$HOME", "'a'", "\"a\"", "{a}", "a;b",
        "a\nb", "a\\b", "%s", "{}", "database_a", "a.json", "@LONG", "caf@E", "@U", "@u", "tests1", "__a__", "a/", "nul", "#a",
        "a|b", "a&b", "0", "00", "-", "--help", "\\", "a,b", "!a", "a:b", "(a)", "+", "=", "@", "^a$", "[!a]*", "[a-z]*", "a?", "??"}
Wrong == {"", ".", "..", "../", "a/b", "/", "../x", "../dbms/a", "../other", "../../x", "@BASE/x", "@BASE/in/other", "./a", "a/../b", "a/.", "..//x",
          "@NUL", "a@NULb", "../dbms2/a", "../databases", "b/../../other", "@BASE/in/dbms/a", "a/b/c"}
NoName(z) == IF Pick(1..(3 + 0 * z)) = 1 THEN Pick({"..", ".", "", "/", "../"}) ELSE Pick(Wrong)
Stray == {"readme.txt", "database_a.json", "x.tmp", ".hidden"}
Texts == {"MAKE (:A);", "MAKE (:A{a:1})-[:R]->(:B);", "MAKE (:A)<-[:R]-(:B{x:'y'})-[:S]->(:C), (:D);", "FIND (:A);", "FIND (h:A)-[:R]->(:B);",
          "MAKE (:A", "MAKE (:B); MAKE (:C)-[]->(:B);", "MAKE (:A)-[:R]-(:B);", "FIND (:Nothing); MAKE (:A);"}
Init == cat = {} /\ log = <<>> /\ len = 0
Say(step) == log' = Append(log, step) /\ len' = len + 1
Mostly(z) == IF cat # {} /\ Pick(1..(4 + 0 * z)) > 1 THEN Pick(cat)
             ELSE LET k == Pick(1..(5 + 0 * z)) IN
                  IF k <= 2 THEN Pick(Usual) ELSE IF k <= 4 THEN Pick(Odd) ELSE NoName(z)
Fresh(z) == LET k == Pick(1..(6 + 0 * z)) IN
            IF k <= 2 THEN Pick(Usual) ELSE IF k <= 4 THEN Pick(Odd) ELSE IF k = 5 /\ cat # {} THEN Pick(cat) ELSE NoName(z)
(* the first of the names that can be created                              *)
Named(ls) == LET js == {j \in 1..Len(ls) : ls[j] \notin Wrong \cup cat /\ ls[j] \notin {"a\nb"}} IN
             IF js = {} THEN {} ELSE {ls[CHOOSE j \in js : \A k \in js : j <= k]}
Next ==
  \/ /\ len < Limit
     /\ \E k \in {Pick(1..(26 + 0 * len))} :
        IF cat = {} /\ Pick(1..(4 + 0 * len)) = 1 THEN Say(<<"bare">>) /\ UNCHANGED cat
        ELSE IF k <= 8 THEN \E nm \in {TLCEval(Fresh(len))} :
             Say(<<"new", nm>>) /\ cat' = IF nm \in Wrong THEN cat ELSE cat \cup {nm}
        ELSE IF k <= 12 THEN \E nm \in {TLCEval(Mostly(len))} : Say(<<"del", nm>>) /\ cat' = cat \ {nm}
        ELSE IF k <= 14 THEN \E nm \in {TLCEval(Mostly(len))} : Say(<<"open", nm>>) /\ UNCHANGED cat
        ELSE IF k <= 20 THEN \E nm \in {TLCEval(Mostly(len))} : Say(<<"q", nm, Pick(Texts)>>) /\ UNCHANGED cat
        ELSE IF k <= 21 THEN Say(<<"list">>) /\ UNCHANGED cat
        ELSE IF k = 24 /\ Pick(1..(3 + 0 * len)) > 1 THEN
             \E ls \in {TLCEval([j \in 1..Pick(1..3) |-> Pick({"A", "B", "C", "D", "E", "F", "Z", "a", "", "AA", "1", "B ", " A", "\\"})])} :
             Say(<<"pick", ls>>) /\ cat' = IF cat # {} THEN cat ELSE cat \cup Named(ls)
        ELSE IF k = 25 /\ Pick(1..(2 + 0 * len)) = 1 THEN
             \E ls \in {TLCEval([j \in 1..Pick(1..3) |-> Fresh(len + j)])} : Say(<<"ask", ls>>) /\ cat' = cat \cup Named(ls)
        ELSE IF k = 22 THEN Say(IF Pick(1..3) = 1 THEN <<"sess">> ELSE <<"use", Pick(1..2)>>) /\ UNCHANGED cat
        ELSE IF k = 23 /\ cat # {} /\ Pick(1..3) = 1
             THEN Say(<<"drop", Pick(cat), Pick({"db", "idx", "num"})>>) /\ UNCHANGED cat
        ELSE IF k = 23 THEN Say(<<"stray", Pick(Stray)>>) /\ UNCHANGED cat
        ELSE IF k >= 25 THEN Say(<<"use", Pick(0..2)>>) /\ UNCHANGED cat
        ELSE Say(<<"list">>) /\ UNCHANGED cat
  \/ /\ len = Limit /\ PrintT("SCRIPT|" \o ToJson(log)) /\ len' = len + 1 /\ UNCHANGED <<cat, log>>
Spec == Init /\ [][Next]_vars
=============================================================================

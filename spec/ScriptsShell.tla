---------------------------- MODULE ScriptsShell ----------------------------
(* Generator of interactive sessions (see Scripts.tla): the databases that *)
(* exist, and the lines that are typed in up to three sessions.  Judged by *)
(* ShellTrace.tla.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
VARIABLES setup, log, ses, st, names, len
vars == <<setup, log, ses, st, names, len>>
Limit == atoi(IOEnv.LEN)
Pick(S) == RandomElement(S)
Db == {"a", "b", "abc", "Zed", "my db", "x.y", "0", "db_1", "B", "tab", "café1"} \ {"café1"}
Letters == {"A", "B", "C", "D", "a", "", "1", "AA", " A", "Z", "q", "help", "?"}
Fresh == {"new", "n e w", "a", "b", "", "..", "x/y", "q", "help", "y", "MAKE (:A);", "new2", "Z*"}
Queries == {"MAKE (:A);", "MAKE (:A{a:1})-[:R]->(:B);", "make (:A)<-[:R]-(:B{x:'y'})-[:S]->(:C), (:D);", "FIND (:A);", "FIND (h:A)-[:R]->(:B);",
  "MAKE (:A", "MAKE (:B); MAKE (:C)-[]->(:B);", "MAKE (:A)-[:R]-(:B);", "FIND (:Nothing); MAKE (:A);", "", " ", "   q", "q ", "Q", "quit", "exit",
  "MAKE (:Q{q:'q'});", "MAKE (:Help{a:'help'});", "FIND (:Help);", "help me", "MAKE (:A); REPORT h;", "FIND (h:A); REPORT h;", "FIND (h:A); REPORT k;",
  "MAEK (:A);", "XYZ;", "y", "A", "MAKE (:A{a:True});", "MAKE (h:A)-[h:R]->(:B);", "MAKE (:A{a:'help', b:\"q\"});", "MAKE (:A);;", "(:A);",
  "MAKE (:A)-[:R]->(:B)-[:R]->(:C)-[:R]->(:A);", "MAKE (:A{a:1, b:[1,'2',null,true,3.5]});", ";", "#", "MAKE (:A) #;", "FIND (:C)<-[:S]-(:B);",
  "FIND (:D)-[:S]->(:A);", "FIND (:A)-[:OTHER]->(:B);", "MAKE (:helpful);", "  MAKE (:Node_1) ;  ", "MAKE\t(:Tab);", "REPORT h;", "FIND (:A); FIND (:B);", "%s", "{}", "\\", "'"}
Helps == {"help", "HELP", "Help", " help", "help  ", "\thelp"}
Some(S, n, z) == SetToSeq(TLCEval({Pick(S) : j \in 1..Pick(0..(n + 0 * z))}))
Setup(z) == LET ns == Some(Db, 5, z) IN
  TLCEval([j \in 1..Len(ns) |-> <<ns[j], Some({"MAKE (:A);", "MAKE (:B)-[:R]->(:A{a:1});"}, 2, j), IF Pick(1..8) = 1 THEN Pick({"db", "idx", "num"}) ELSE "">>])
Init == setup = <<>> /\ log = <<>> /\ ses = <<>> /\ st = "setup" /\ names = {} /\ len = 0
Line(x) == ses' = Append(ses, x) /\ len' = len + 1 /\ UNCHANGED <<setup, log>>
Next ==
  \/ /\ st = "setup"
     /\ setup' = Setup(len) /\ names' = {setup'[j][1] : j \in 1..Len(setup')} /\ st' = "ask" /\ UNCHANGED <<log, ses, len>>
  \/ /\ st = "ask" /\ len < Limit /\ UNCHANGED names
     /\ \E y \in {Pick(1..(6 + 0 * len))} :
        IF y <= 3 THEN Line("y") /\ st' = (IF names = {} THEN "name" ELSE "letter")
        ELSE IF y = 4 THEN Line("yes") /\ st' = (IF names = {} THEN "name" ELSE "letter")
        ELSE Line(Pick({"n", "no", "", "x", "Y", "q", "help"})) /\ st' = "name"
  \/ /\ st = "letter" /\ len < Limit /\ UNCHANGED names
     /\ \E k \in {Pick(1..(3 + 0 * len))} :
        IF k > 1 THEN Line(Pick({"A", "B", "C"})) /\ st' = (IF Pick(1..3) > 1 THEN "query" ELSE "letter")
        ELSE Line(Pick(Letters)) /\ UNCHANGED st
  \/ /\ st = "name" /\ len < Limit
     /\ \E nm \in {Pick(Fresh)} :
        Line(nm) /\ IF nm \in names \cup {"", "..", "x/y"} THEN UNCHANGED <<st, names>> ELSE st' = "query" /\ names' = names \cup {nm}
  \/ /\ st = "query" /\ len < Limit /\ UNCHANGED names
     /\ \E k \in {Pick(1..(24 + 0 * len))} :
        IF k = 1 THEN /\ ses' = <<>> /\ log' = Append(log, Append(ses, "q")) /\ st' = "ask" /\ len' = len + 1 /\ UNCHANGED setup
        ELSE IF k <= 4 THEN \E q \in {Pick(Queries)} :
             /\ ses' = ses \o <<<<"fail", Pick({"db", "idx", "num"}), q>>, q>>
             /\ len' = len + 1 /\ UNCHANGED <<setup, log, st>>
        ELSE IF k = 5 THEN Line(Pick(Helps)) /\ UNCHANGED st
        ELSE Line(Pick(Queries)) /\ UNCHANGED st
  \/ /\ len = Limit
     /\ PrintT("SCRIPT|" \o ToJson([setup |-> setup, lines |-> Append(log, Append(ses, "q"))]))
     /\ len' = len + 1 /\ UNCHANGED <<setup, log, ses, st, names>>
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* The interactive session: asks whether to use an existing database, then *)
(* for its letter or for a new name, then for queries until q.             *)
(* A session is [stage, db]: stage "ask", "letter", "name", "query" or     *)
(* "over", db the name of the chosen database.                             *)
(***************************************************************************)
EXTENDS Catalog

Letters26 == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
               "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Session(stage, db) == [stage |-> stage, db |-> db]
Begin == Session("ask", <<>>)

(* which database a letter denotes: the one shown next to it               *)
Denotes(cat, shown, letter) ==
  LET listed == Listing(cat)
      seen == {x \in Range(shown) : x[1] = letter /\ x[2] \in NamesIn(cat)} IN
  IF seen # {} THEN (CHOOSE x \in seen : TRUE)[2]
  ELSE IF \E j \in 1..26 : j <= Len(listed) /\ Letters26[j] = letter
       THEN listed[CHOOSE j \in 1..26 : Letters26[j] = letter]
  ELSE <<>>

(* line: its text, its words in lower case without white space around; nm: *)
(* the line as a name.  The session, and the catalog, after it.            *)
Reply(ses, cat, shown, line, trimmed, nm) ==
  CASE ses.stage = "ask" ->
         IF line \in {"y", "yes"}
         THEN <<Session(IF cat = {} THEN "name" ELSE "letter", <<>>), cat>>
         ELSE <<Session("name", <<>>), cat>>
    [] ses.stage = "letter" ->
         LET db == Denotes(cat, shown, line) IN
         IF db # <<>> /\ CanOpen(cat, db) THEN <<Session("query", db), cat>> ELSE <<ses, cat>>
    [] ses.stage = "name" ->
         IF CanCreate(cat, nm) THEN <<Session("query", nm), Created(cat, nm)>> ELSE <<ses, cat>>
    [] ses.stage = "query" ->
         IF line = "q" THEN <<Session("over", ses.db), cat>> ELSE <<ses, cat>>
    [] OTHER -> <<ses, cat>>
Executes(ses, line, trimmed) == ses.stage = "query" /\ line # "q" /\ trimmed # "help"
=============================================================================

------------------------------- MODULE MCShell -------------------------------
(***************************************************************************)
(* Sessions of the shell, one after the other, over every sequence of      *)
(* lines up to a bound.  What a session does is Reply of Shell.tla; here   *)
(* it also runs the lines.                                                 *)
(* Flaw   "none", or a flaw that a property must show:                     *)
(*        "help"   a line with the word help in it is not executed         *)
(*        "errors" an error ends the session                               *)
(*        "letter" letters count from the wrong end                        *)
(***************************************************************************)
EXTENDS Shell, TLC
CONSTANTS Flaw, MaxLines

VARIABLES ses, cat, typed, ran, ended, line, n
vars == <<ses, cat, typed, ran, ended, line, n>>
(* typed: what the user asked to be run, <<database, line>>; ran: what was *)

a == <<97>>
b == <<98>>
Line(t, tr, nm, bad) == [t |-> t, trimmed |-> tr, nm |-> nm, bad |-> bad]
Lines == {Line("y", "y", <<121>>, TRUE), Line("n", "n", <<110>>, TRUE), Line("q", "q", <<113>>, TRUE), Line("A", "a", <<65>>, TRUE),
          Line("B", "b", <<66>>, TRUE), Line("a", "a", a, TRUE), Line("b", "b", b, TRUE), Line(" HELP", "help", <<32, 72>>, TRUE),
          Line("MAKE (:help);", "make (:help);", <<77>>, FALSE), Line("q ", "q", <<113, 32>>, TRUE), Line("", "", <<>>, TRUE)}
Init == /\ ses = Begin /\ cat \in {{}, {[n |-> b, f |-> Files], [n |-> a, f |-> Files]}, {[n |-> a, f |-> {"db"}], [n |-> b, f |-> Files]}}
        /\ typed = <<>> /\ ran = <<>> /\ ended = FALSE /\ line = "" /\ n = 0

HasHelp(l) == l.trimmed \in {"help", "make (:help);"}
Reversed(ct) == [j \in 1..Len(Listing(ct)) |-> <<Letters26[j], Reverse(Listing(ct))[j]>>]
Type(l) ==
  /\ ~ended /\ n < MaxLines
  /\ LET shown == IF Flaw = "letter" THEN Reversed(cat) ELSE <<>>
         r == Reply(ses, cat, shown, l.t, l.trimmed, l.nm)
         runs == IF Flaw = "help" THEN ses.stage = "query" /\ l.t # "q" /\ ~HasHelp(l) ELSE Executes(ses, l.t, l.trimmed) IN
     /\ ses' = r[1] /\ cat' = r[2]
     /\ ran' = IF runs THEN Append(ran, <<ses.db, l.t>>) ELSE ran
     /\ typed' = IF ses.stage = "query" /\ l.t # "q" /\ l.trimmed # "help" THEN Append(typed, <<ses.db, l.t>>) ELSE typed
     /\ ended' = (r[1].stage = "over" \/ (Flaw = "errors" /\ runs /\ l.bad))
  /\ n' = n + 1 /\ line' = l.t
Again == ended /\ n < MaxLines /\ ses' = Begin /\ ended' = FALSE /\ UNCHANGED <<cat, typed, ran, line, n>>
Next == (\E l \in Lines : Type(l)) \/ Again
Spec == Init /\ [][Next]_vars

C18 ==
  /\ ran = typed                                         \* exactly once and in order, on the chosen database
  /\ ended => ses.stage = "over"                         \* only q ends the session
  /\ ses.stage = "query" => CanOpen(cat, ses.db)         \* on a database that is whole
  /\ \A x \in Range(ran) : Taken(cat, x[1])
C18Letter ==        \* the n-th letter is the n-th database of the listing
  [][ses.stage = "letter" /\ ses'.stage = "query" =>
       \E j \in 1..Len(Listing(cat)) : line' = Letters26[j] /\ ses'.db = Listing(cat)[j]]_vars
C18Name == [][ses.stage = "name" /\ ses'.stage = "query" => ~Taken(cat, ses'.db)]_vars
C18Others == [][NamesIn(cat) \subseteq NamesIn(cat') /\ (cat # cat' => ses.stage = "name")]_vars
=============================================================================

---------------------------- MODULE ScriptsStore ----------------------------
(* Generator of scripts for the storage layer (see Scripts.tla): calls     *)
(* with few keys, so that they meet.  Judged by StoreTrace.tla.            *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
VARIABLES log, len
vars == <<log, len>>
Limit == atoi(IOEnv.LEN)
Pick(S) == RandomElement(S)
Keys == {"0", "1", "2", "3", "5", "10", "11", "100", "9", "a", ""}
Records == {[x |-> 1], [node_label |-> "A"], [node_label |-> "Person", properties |-> [a |-> <<1, 2>>]], [y |-> "@LONG"], [z |-> "@HUGE"],
            [l |-> <<>>], [t |-> TRUE], [n |-> "null"], [q |-> "it's \"quoted\" \\ {}[],:"], [u |-> "@E"]}
Falsy == {"@EMPTY", "@NULL", "@FALSE", "@NIL", "@ZERO", "@BLANK"}   \* records with nothing in them
Items == {"A", "B", "Person", "KNOWS", "", "a", "@LONG", "node_labels", "relationship_names", "A B", "null"}
Some(S, n, z) == SetToSeq(TLCEval({Pick(S) : j \in 1..Pick(0..(n + 0 * z))}))
Adds(z) == LET ks == Some(Keys, 4, z) IN TLCEval([j \in 1..Len(ks) |-> <<ks[j], IF Pick(1..4) = 1 THEN Pick(Falsy) ELSE Pick(Records)>>])
Rels(z) == LET ks == Some(Keys \ {"a", ""}, 4, z) IN TLCEval([j \in 1..Len(ks) |-> <<ks[j], Some(0..14, 6, j)>>])
Init == log = <<>> /\ len = 0
Say(f, a, sure) == log' = Append(log, <<f, a, sure>>) /\ len' = len + 1
Next ==
  \/ /\ len < Limit
     /\ \E k \in {Pick(1..(29 + 0 * len))} :
        CASE k <= 5 -> Say("add", Adds(len), "")
          [] k <= 8 -> Say("addl", Some(Items, 4, len), "")
          [] k <= 11 -> Say("addn", Some(Items, 4, len), "")
          [] k <= 15 -> Say("addr", Rels(len), "")
          [] k = 16 -> Say("load", <<>>, "")
          [] k = 17 -> Say("loadl", <<>>, "")
          [] k = 18 -> Say("loadn", <<>>, "")
          [] k = 19 -> Say("loadr", <<>>, "")
          [] k = 20 -> Say("wipe", <<>>, Pick({"yes", "no", ""}))
          [] k = 21 -> Say("wipel", <<>>, Pick({"yes", "no", ""}))
          [] k = 22 -> Say("wipen", <<>>, Pick({"yes", "no", ""}))
          [] k = 23 -> Say("wiper", <<>>, Pick({"yes", "no", ""}))
          [] k <= 25 -> Say("get", <<>>, "")
          [] k <= 28 -> Say("set", Pick({0, 1, 9, 10, 11, 99, 100, 12345, 7, 1000000}), "")
          [] OTHER -> log' = Append(log, <<"sess">>) /\ len' = len + 1
  \/ /\ len = Limit /\ PrintT("SCRIPT|" \o ToJson(log)) /\ len' = len + 1 /\ UNCHANGED log
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE ScriptsAdmin ----------------------------
(***************************************************************************)
(* Generator of scripts for creating, deleting and using databases, run by *)
(* TLC in simulation mode: what is there at first (steps 1 to Setups),     *)
(* operations that run at the same time (Ops of them; the first is also    *)
(* the one that is interrupted), where each is held up and in which order  *)
(* they go on (Acts), and what is tried afterwards.  The generator follows *)
(* which databases there are, and what is in them, so that it can ask for  *)
(* what is there and for what is not there any more.                       *)
(***************************************************************************)
EXTENDS Scripts
VARIABLES there, st
Setups == 4
Ops == 4
Acts == 9
AInit == Init /\ there = {} /\ st = 0
Main(z) == IF Chance(4 + 0 * z, 5) THEN 1 ELSE 2
Act(a) == log' = Append(log, a) /\ len' = len + 1 /\ UNCHANGED hist
New(d) == Act(<<"new", d>>) /\ there' = there \cup {d} /\ (IF d \in there THEN UNCHANGED dbs ELSE Put(d, Empty))
Del(d) == Act(<<"del", d>>) /\ there' = there \ {d} /\ Put(d, Empty)
Look(c, d) == Act(<<c, d>>) /\ UNCHANGED <<dbs, there>>
Ask(d) == (IF Chance(2, 3) THEN Make(d) ELSE Find(d)) /\ UNCHANGED there
(* what is likely: a database that is not there is made                    *)
Build1 == \E d \in {Main(1)} : IF d \in there THEN (IF Chance(4, 5) THEN Ask(d) ELSE Del(d)) ELSE New(d)
Op1(k) == \E d \in {Main(2)} : \E c \in {Pick(1..12)} :
  CASE k = 1 \/ c <= 5 -> IF d \in there THEN (IF c <= 4 \/ k = 1 THEN Del(d) ELSE New(d)) ELSE (IF c <= 4 \/ k = 1 THEN New(d) ELSE Del(d))
    [] c <= 9 -> Ask(d)
    [] c = 10 -> Look("open", d)
    [] c = 11 -> Look("list", 0)
    [] OTHER -> IF Chance(1, 2) THEN New(d) ELSE Del(d)
Hold(k) ==
  /\ UNCHANGED <<dbs, there>>
  /\ \E c \in {Pick(1..10)} :
     IF st < Ops /\ (st = 0 \/ c <= 5)
     THEN /\ \E a \in {IF st = 0 \/ Chance(1, 3) THEN Pick(1..999) ELSE 0}, b \in {IF Chance(1, 3) THEN Pick(1..18) ELSE 0} :
               Act(<<"start", st + 1, a, b>>)
          /\ st' = st + 1
     ELSE \E q \in {Pick(1..st)} : Act(<<IF c = 10 THEN "kill" ELSE "go", q>>) /\ UNCHANGED st
After1 == \E d \in {Main(3)} : \E c \in {Pick(1..12)} :
  CASE c <= 2 -> Look("open", d) [] c = 3 -> Look("list", 0) [] c = 4 -> Act(<<"sess">>) /\ UNCHANGED <<dbs, there>>
    [] c <= 7 -> Ask(d)
    [] c <= 9 -> New(d)
    [] OTHER -> IF d \in there \/ c = 12 THEN Del(d) ELSE New(d)
ANext ==
  \/ /\ len < Setups /\ Build1 /\ UNCHANGED st
  \/ /\ len >= Setups /\ len < Setups + Ops /\ Op1(len - Setups + 1) /\ UNCHANGED st
  \/ /\ len >= Setups + Ops /\ len < Setups + Ops + Acts /\ Hold(len)
  \/ /\ len >= Setups + Ops + Acts /\ len < Limit /\ After1 /\ UNCHANGED st
  \/ /\ len = Limit
     /\ PrintT("SCRIPT|" \o ToJson(log))
     /\ len' = len + 1 /\ UNCHANGED <<dbs, log, hist, there, st>>
ASpec == AInit /\ [][ANext]_<<vars, there, st>>
=============================================================================

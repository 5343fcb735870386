---------------------------- MODULE ScriptsSched ----------------------------
(***************************************************************************)
(* Generator of schedules for the real code, run by TLC in simulation      *)
(* mode: three queries that run at the same time, each in a session of its *)
(* own, on two databases; where each is stopped, in which order they go    *)
(* on, which is killed, and what is asked meanwhile by another session,    *)
(* also of a third database.                                               *)
(***************************************************************************)
EXTENDS Scripts
VARIABLE st      \* number of queries that were started
Setups == 3
Queries == 3
Busy(z) == IF Chance(4 + 0 * z, 5) THEN 1 ELSE 2
SInit == Init /\ st = 0
Act(a) == log' = Append(log, a) /\ len' = len + 1 /\ UNCHANGED <<dbs, hist>>
LookIdle == \E mk \in {TLCEval(<<SomePats(1)>>)} : Say(3, Laid(MakesToks(mk)), mk) /\ UNCHANGED dbs
SNext ==
  \/ /\ len < Setups
     /\ \E d \in {Busy(len)} : IF Chance(3, 4) THEN Make(d) ELSE Find(d)
     /\ UNCHANGED st
  \/ /\ len >= Setups /\ len < Setups + Queries
     /\ \E d \in {Busy(len)} : \E k \in {Pick(1..10)} : IF k <= 7 THEN Make(d) ELSE IF k <= 9 THEN Find(d) ELSE MakeFind(d)
     /\ UNCHANGED st
  \/ /\ len >= Setups + Queries /\ len < Limit
     /\ \E k \in {Pick(1..20)} :
        IF st = 0 \/ (st < Queries /\ k <= 6)
        THEN /\ \E a \in {IF Chance(5, 6) THEN Pick(1..999) ELSE 0}, b \in {IF Chance(1, 3) THEN Pick(1..12) ELSE 0} :
                   Act(<<"start", st + 1, a, b>>)
             /\ st' = st + 1
        ELSE /\ UNCHANGED st
             /\ IF k <= 12 THEN \E d \in {Busy(k)} : IF Chance(5, 6) THEN Find(d) ELSE Bad(d)
                ELSE IF k <= 14 THEN LookIdle
                ELSE IF k <= 19 THEN \E q \in {Pick(1..st)} : Act(<<"go", q>>)
                ELSE \E q \in {Pick(1..st)} : Act(<<"kill", q>>)
  \/ /\ len = Limit
     /\ PrintT("SCRIPT|" \o ToJson(log))
     /\ len' = len + 1 /\ UNCHANGED <<dbs, log, hist, st>>
SSpec == SInit /\ [][SNext]_<<vars, st>>
=============================================================================

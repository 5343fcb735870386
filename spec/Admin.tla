------------------------------- MODULE Admin -------------------------------
(***************************************************************************)
(* What creating, deleting and using one database mean when several        *)
(* sessions do it at the same time, or are killed: as if the operations    *)
(* had run one after the other.                                            *)
(* A database is gone, whole, or a part of one: left by a creation or a    *)
(* deletion that was interrupted; a part is never used.                    *)
(* by: the operation that created it (0: it was there before), mk: the     *)
(* MAKEs that were stored since.                                           *)
(* An operation: [op, id, mode, res, s, e]: what, which, "n" or "kill",    *)
(* what it answered, when it was started and when it ended.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Gone == [k |-> "gone", by |-> 0, mk |-> <<>>]
Part == [k |-> "part", by |-> 0, mk |-> <<>>]
Is(by, mk) == [k |-> "whole", by |-> by, mk |-> mk]

(* the databases it can leave                                              *)
Outcomes(s, o) ==
  LET ok == o.res = "ok"
      dead == o.mode = "kill" IN
  CASE o.op = "new" /\ s.k = "gone"  -> IF dead THEN {Gone, Part, Is(o.id, <<>>)} ELSE IF ok THEN {Is(o.id, <<>>)} ELSE {}
    [] o.op = "new" /\ s.k = "part"  -> IF dead THEN {Part, Is(o.id, <<>>)} ELSE IF ok THEN {Is(o.id, <<>>)} ELSE {Part}
    [] o.op = "new" /\ s.k = "whole" -> IF dead \/ ~ok THEN {s} ELSE {}
    [] o.op = "del" /\ s.k = "gone"  -> IF dead \/ ~ok THEN {s} ELSE {}
    [] o.op = "del" /\ s.k = "part"  -> IF dead THEN {Part, Gone} ELSE IF ok THEN {Gone} ELSE {}
    [] o.op = "del" /\ s.k = "whole" -> IF dead THEN {s, Part, Gone} ELSE IF ok THEN {Gone} ELSE {}
    [] o.op = "make" -> IF s.k # "whole" THEN (IF dead \/ ~ok THEN {s} ELSE {})
                        ELSE IF dead THEN {s, Is(s.by, Append(s.mk, o.id))}
                        ELSE IF ok THEN {Is(s.by, Append(s.mk, o.id))} ELSE {}
    [] o.op = "any" -> {s}
    [] o.op = "find" /\ s.k = "part" -> {s}       \* of a session that had opened it before
    [] OTHER -> IF dead \/ ok = (s.k = "whole") THEN {s} ELSE {}      \* open, FIND

(* every database in which the operations O can leave s, one after the     *)
(* other, when none comes before another that had ended when it started    *)
RECURSIVE Results(_, _)
Results(s, O) ==
  IF O = {} THEN {s}
  ELSE UNION {UNION {Results(u, O \ {o}) : u \in Outcomes(s, o)} : o \in {x \in O : \A y \in O \ {x} : ~(y.e < x.s)}}
=============================================================================

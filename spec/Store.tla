------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The storage layer below the queries: what each function does to the     *)
(* three files.  A state is [db, il, ir, inr, ctr]: db and inr are sets of *)
(* <<key, value>>, il and ir sets.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

KeysOf(S) == {x[1] : x \in S}
Merge(inr, add) ==
  {<<k, UNION {x[2] : x \in {y \in inr \cup add : y[1] = k}}>> : k \in KeysOf(inr) \cup KeysOf(add)}

(* the effect of a call: whether it succeeds, what it returns, the state   *)
Out(ok, ret, s) == [ok |-> ok, ret |-> ret, s |-> s]
Call(s, f, a, sure) ==
  CASE f = "add" -> IF KeysOf(s.db) \cap KeysOf(a) # {} THEN Out(FALSE, {}, s)
                    ELSE Out(TRUE, {}, [s EXCEPT !.db = @ \cup a])
    [] f = "load" -> Out(TRUE, s.db, s)
    [] f = "wipe" -> Out(TRUE, {}, IF sure THEN [s EXCEPT !.db = {}] ELSE s)
    [] f = "addl" -> Out(TRUE, {}, [s EXCEPT !.il = @ \cup a])
    [] f = "loadl" -> Out(TRUE, s.il, s)
    [] f = "wipel" -> Out(TRUE, {}, IF sure THEN [s EXCEPT !.il = {}] ELSE s)
    [] f = "addn" -> Out(TRUE, {}, [s EXCEPT !.ir = @ \cup a])
    [] f = "loadn" -> Out(TRUE, s.ir, s)
    [] f = "wipen" -> Out(TRUE, {}, IF sure THEN [s EXCEPT !.ir = {}] ELSE s)
    [] f = "addr" -> Out(TRUE, {}, [s EXCEPT !.inr = Merge(@, a)])
    [] f = "loadr" -> Out(TRUE, s.inr, s)
    [] f = "wiper" -> Out(TRUE, {}, IF sure THEN [s EXCEPT !.inr = {}] ELSE s)
    [] f = "get" -> Out(TRUE, {s.ctr}, s)
    [] f = "set" -> Out(TRUE, {}, [s EXCEPT !.ctr = a])
=============================================================================

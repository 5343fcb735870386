----------------------------- MODULE StoreTrace -----------------------------
(* Trace validation of the storage layer: C22.                             *)
EXTENDS Store, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, s
vars == <<t, i, s>>

Pairs(q) == {<<q[j][1], q[j][2]>> : j \in 1..Len(q)}
Sets(q) == {<<q[j][1], Range(q[j][2])>> : j \in 1..Len(q)}
Read(r) == [db |-> Pairs(r.db), il |-> Range(r.il), ir |-> Range(r.ir), inr |-> Sets(r.inr), ctr |-> r.ctr]
Args(e) == CASE e.op = "add" -> Pairs(e.a) [] e.op = "addr" -> Sets(e.a)
             [] e.op \in {"addl", "addn"} -> Range(e.a) [] OTHER -> e.a
Returned(e) == CASE e.op = "load" -> Pairs(e.ret) [] e.op = "loadr" -> Sets(e.ret)
                 [] e.op \in {"loadl", "loadn"} -> Range(e.ret) [] e.op = "get" -> {e.ret} [] OTHER -> {}
If(b, r) == IF b THEN {r} ELSE {}
Verdict(e) ==
  LET o == Call(s, e.op, Args(e), e.sure = "yes")
      p == Read(e.post) IN
     If(~e.post.ok, e.op \o ": a file cannot be read")
  \cup IF ~e.post.ok THEN {} ELSE
       If(o.ok # (e.res = "ok"), e.op \o IF o.ok THEN ": fails" ELSE ": is not refused")
  \cup If(o.ok /\ e.res = "ok" /\ Returned(e) # o.ret, e.op \o ": does not return what is stored")
  \cup If(p.db # o.s.db \/ Len(e.post.db) # Cardinality(o.s.db), e.op \o ": the records are not those expected")
  \cup If(p.il # o.s.il, e.op \o ": the label index is not the one expected")
  \cup If(p.ir # o.s.ir, e.op \o ": the relationship name index is not the one expected")
  \cup If(p.inr # o.s.inr, e.op \o ": the node-relationship index is not the one expected")
  \cup If(p.ctr # o.s.ctr, e.op \o ": the number is not the one expected")
  \cup If(e.post.more # <<>>, e.op \o ": there is another index")

Init == t \in 1..Len(Traces) /\ i = 1 /\ s = Read(Traces[t].first)
Next ==
  LET tr == Traces[t] IN
  \/ /\ i <= Len(tr.ev)
     /\ \A r \in Verdict(tr.ev[i]) : PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o r)
     /\ PrintT("EV|" \o tr.id \o "|" \o ToString(i) \o "|" \o tr.ev[i].op)
     /\ s' = IF tr.ev[i].post.ok THEN Read(tr.ev[i].post) ELSE s
     /\ i' = i + 1 /\ UNCHANGED t
  \/ /\ i = Len(tr.ev) + 1
     /\ PrintT("DONE|" \o tr.id)
     /\ i' = i + 1 /\ UNCHANGED <<t, s>>
Spec == Init /\ [][Next]_vars
=============================================================================

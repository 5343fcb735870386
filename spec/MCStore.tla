------------------------------- MODULE MCStore -------------------------------
(***************************************************************************)
(* The storage layer as it works on files.  A file is a sequence of        *)
(* symbols; it is read up to its end mark, and readable if nothing follows *)
(* it.  Every call reads, changes what it read, and writes back.  The      *)
(* property: what comes of it is what Store.tla says, for every sequence   *)
(* of calls.                                                               *)
(* Flaw   "none", or a flaw that the property must show:                   *)
(*        "inplace"  the new content is written over the old one           *)
(*        "replace"  an index gets the new items and loses the old ones    *)
(*        "partial"  records are added one by one until one exists         *)
(***************************************************************************)
EXTENDS Store, TLC
CONSTANTS Flaw, MaxCalls

VARIABLES dbf, ixf, numf, s, bad, n
vars == <<dbf, ixf, numf, s, bad, n>>

End == <<"end">>
Mark == <<"mark">>
Encode(sets) == FlattenSeq([j \in 1..Len(sets) |-> [x \in 1..Cardinality(sets[j]) |-> <<"item", SetToSeq(sets[j])[x]>>] \o <<Mark>>]) \o <<End>>
Good(f) == \E j \in 1..Len(f) : f[j] = End /\ j = Len(f) /\ \A k \in 1..(j-1) : f[k] # End
RECURSIVE Decode(_, _)
Decode(f, part) ==
  IF f = <<>> \/ Head(f) = End THEN <<>>
  ELSE IF Head(f) = Mark THEN <<part>> \o Decode(Tail(f), {})
  ELSE Decode(Tail(f), part \cup {Head(f)[2]})
Put(old, new) == IF Flaw = "inplace" /\ Len(new) < Len(old) THEN new \o SubSeq(old, Len(new) + 1, Len(old)) ELSE new

Recs == {<<"0", "x">>, <<"0", "y">>, <<"1", "x">>}
Items == {"A", "B"}
Edges == {<<"0", {1}>>, <<"0", {2}>>, <<"1", {1}>>}
Records == {R \in SUBSET Recs : Cardinality(KeysOf(R)) = Cardinality(R)}
Relations == {R \in SUBSET Edges : Cardinality(KeysOf(R)) = Cardinality(R)}
Calls == {<<"add", R>> : R \in Records} \cup {<<"wipe", {}>>} \cup {<<f, I>> : f \in {"addl", "addn"}, I \in SUBSET Items}
         \cup {<<"wipel", {}>>, <<"wipen", {}>>, <<"wiper", {}>>} \cup {<<"addr", R>> : R \in Relations}
         \cup {<<"set", k>> : k \in {0, 7}} \cup {<<f, {}>> : f \in {"load", "loadl", "loadn", "loadr", "get"}}

Start == [db |-> {}, il |-> {}, ir |-> {}, inr |-> {}, ctr |-> 0]
Init == dbf = Encode(<<{}>>) /\ ixf = Encode(<<{}, {}, {}>>) /\ numf = 0 /\ s = Start /\ bad = "" /\ n = 0

Db == Decode(dbf, {})[1]
Ix == Decode(ixf, {})
Add(old, new) == IF Flaw = "replace" THEN new ELSE old \cup new
Do(f, arg, sure) ==
  /\ n < MaxCalls /\ bad = "" /\ n' = n + 1
  /\ s' = Call(s, f, arg, sure).s
  /\ LET exists == {x \in arg : x[1] \in KeysOf(Db)}
         ixn(x) == Encode(x)
         want == Call(s, f, arg, sure)
         res == ~(f = "add" /\ exists # {}) IN
     /\ dbf' = CASE f = "add" /\ exists = {} -> Put(dbf, Encode(<<Db \cup arg>>))
                 [] f = "add" -> IF Flaw = "partial" THEN Put(dbf, Encode(<<Db \cup (arg \ exists)>>)) ELSE dbf
                 [] f = "wipe" /\ sure -> Encode(<<{}>>)
                 [] OTHER -> dbf
     /\ ixf' = CASE f = "addl" -> Put(ixf, ixn(<<Add(Ix[1], arg), Ix[2], Ix[3]>>))
                 [] f = "addn" -> Put(ixf, ixn(<<Ix[1], Add(Ix[2], arg), Ix[3]>>))
                 [] f = "addr" -> Put(ixf, ixn(<<Ix[1], Ix[2], Merge(Ix[3], arg)>>))
                 [] f = "wipel" /\ sure -> Put(ixf, ixn(<<{}, Ix[2], Ix[3]>>))
                 [] f = "wipen" /\ sure -> Put(ixf, ixn(<<Ix[1], {}, Ix[3]>>))
                 [] f = "wiper" /\ sure -> Put(ixf, ixn(<<Ix[1], Ix[2], {}>>))
                 [] OTHER -> ixf
     /\ numf' = IF f = "set" THEN arg ELSE numf
     /\ bad' = CASE res # want.ok -> f \o " is not refused, or fails"
                 [] f = "load" /\ Db # want.ret -> f
                 [] f = "loadl" /\ Ix[1] # want.ret -> f
                 [] f = "loadn" /\ Ix[2] # want.ret -> f
                 [] f = "loadr" /\ Ix[3] # want.ret -> f
                 [] f = "get" /\ {numf} # want.ret -> f
                 [] OTHER -> ""
Next == \E c \in Calls, sure \in {TRUE} : Do(c[1], c[2], sure)
NextUnsure == \E f \in {"wipe", "wipel", "wipen", "wiper"} : Do(f, {}, FALSE)
Spec == Init /\ [][Next \/ NextUnsure]_vars

C22 == /\ bad = "" /\ Good(dbf) /\ Good(ixf)
       /\ Db = s.db /\ Ix[1] = s.il /\ Ix[2] = s.ir /\ Ix[3] = s.inr /\ numf = s.ctr
=============================================================================

---------------------------- MODULE CatalogTrace ----------------------------
(* Trace validation of the catalog: C16 and C17.                           *)
EXTENDS Catalog, Wql, Graph, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES t, i, cat, fresh, cur
vars == <<t, i, cat, fresh, cur>>
(* fresh: names on which no query ran since they were created              *)
(* cur: name -> stored state, as a set of pairs                            *)

Only(e, names) == If(~(Range(e.touched) \subseteq names), "the files of another database were changed")
                  \cup If(e.outside, "something outside the folder of databases was changed")
(* what choosing, or creating under a name that is asked for, must come to *)
Due(e) == IF e.op = "pick" THEN Chosen(cat, e.lines) ELSE AskedFor(cat, e.lines)
C16(e) ==
  CASE e.op \in {"pick", "ask"} ->
         (IF Due(e) = Nobody THEN If(e.res = "ok", "a database is made or opened that was not asked for") \cup Only(e, {})
          ELSE If(e.res = "ok" /\ e.name # Due(e), "another database than the one asked for is made or opened")
               \cup Only(e, IF Taken(cat, Due(e)) THEN {} ELSE {Due(e)}))
    [] e.op = "new" ->
         (IF CanCreate(cat, e.name) THEN If(e.res # "ok", "a free name is refused") \cup Only(e, {e.name})
          ELSE If(e.res = "ok", "a name that is taken, or is no name of a folder, is not refused") \cup Only(e, {}))
    [] e.op = "del" ->
         (IF CanDelete(cat, e.name)
          THEN If(e.res # "ok" \/ ~e.gone, "the database is not deleted") \cup Only(e, {e.name})
          ELSE If(e.res = "ok", "a database that does not exist is deleted") \cup Only(e, {}))
    [] e.op = "open" -> If(e.res = "ok" /\ ~Taken(cat, e.name), "a database that does not exist is opened") \cup Only(e, {})
    [] e.op = "list" ->
         LET whole == {x.n : x \in {y \in cat : y.f = Files}} IN
         Only(e, {}) \cup If(e.res # "ok", "the databases cannot be listed")
         \cup If(e.res = "ok" /\ ~(whole \subseteq Range(e.list) /\ Range(e.list) \subseteq NamesIn(cat)),
                 "the listing is not the existing databases")
         \cup If(e.res = "ok" /\ e.list # SetToSortSeq(Range(e.list), Less), "the listing is not in alphabetical order")
    [] e.op = "q" -> Only(e, IF Taken(cat, e.name) THEN {e.name} ELSE {})
    [] OTHER -> {}

State(tr, nm) == IF \E x \in cur : x[1] = nm THEN tr.snaps[(CHOOSE x \in cur : x[1] = nm)[2]] ELSE Empty
Makes(e) == (e.op = "new" /\ CanCreate(cat, e.name)) \/ (e.op \in {"pick", "ask"} /\ Due(e) # Nobody /\ ~Taken(cat, Due(e)))
C17(tr, e) ==
  LET s == tr.snaps[e.post] IN
  CASE Makes(e) /\ e.res = "ok" ->
         If(~e.right, "the files returned are not those of the database")
         \cup If(~e.three, "the folder does not hold exactly the three files")
         \cup If(~s.ok, "a file of a new database cannot be read")
         \cup If(s.nodes # <<>> \/ s.rels # <<>>, "a new database is not empty")
         \cup If(s.il # <<>> \/ s.ir # <<>> \/ s.inr # <<>>, "a new database has index entries")
         \cup If(s.ctr # 0, "a new database does not number from 0")
    [] Makes(e) -> {"a free name is refused"}
    [] e.op = "pick" -> If(Due(e) # Nobody /\ e.res # "ok", "a database that is chosen is not opened")
                        \cup If(e.res = "ok" /\ ~(e.right /\ e.name = Due(e)), "choosing returns other files than those of the database")
    [] e.op = "open" ->
         (IF CanOpen(cat, e.name)
          THEN If(e.res # "ok", "an existing database cannot be opened")
               \cup If(e.res = "ok" /\ ~e.right, "opening returns other files than those of the database")
          ELSE If(e.res = "ok", "a database that is missing a file, or does not exist, is opened"))
    [] e.op = "q" /\ Whole(cat, e.name) ->
         LET m == Meaning(e.t)
             pre == State(tr, e.name) IN
         If(m.cls = "ok" /\ e.res # "ok", "a query on an existing database fails")
         \cup (IF m.cls = "ok" /\ e.res = "ok" /\ s.ok
               THEN C01Made(pre, m.makes, s) \cup C02Made(pre, m.makes, s) \cup C05Exact(s)
                    \cup (IF e.name \in fresh /\ NewNodes(pre, s) # <<>>
                          THEN If(NewNodes(pre, s)[1].wn # 0, "the numbers of a new database do not start at 0") ELSE {})
               ELSE {})
    [] OTHER -> {}

PutState(nm, s) == {x \in cur : x[1] # nm} \cup {<<nm, s>>}
After(tr, e) ==
  /\ cat' = (CASE e.op = "new" /\ e.res = "ok" -> Created(cat, e.name)
               [] Makes(e) /\ e.res = "ok" -> Created(cat, e.name)
               [] e.op = "del" /\ e.res = "ok" -> Deleted(cat, e.name)
               [] e.op = "drop" -> {IF x.n = e.name THEN [x EXCEPT !.f = {"some"}] ELSE x : x \in cat}
               [] OTHER -> cat)
  /\ fresh' = (CASE (e.op = "new" \/ Makes(e)) /\ e.res = "ok" -> fresh \cup {e.name}
                 [] e.op = "q" -> fresh \ {e.name}
                 [] OTHER -> fresh)
  /\ cur' = (CASE (e.op \in {"new", "q"} \/ Makes(e)) /\ (e.op = "q" \/ e.res = "ok") -> PutState(e.name, e.post) [] OTHER -> cur)

Verdict(tr, e) == IF Prop = "C16" THEN C16(e) ELSE C17(tr, e)
Init == t \in 1..Len(Traces) /\ i = 1 /\ cat = {} /\ fresh = {} /\ cur = {}
Next ==
  LET tr == Traces[t] IN
  \/ /\ i <= Len(tr.ev)
     /\ \A r \in Verdict(tr, tr.ev[i]) : PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o r)
     /\ PrintT("EV|" \o tr.id \o "|" \o ToString(i) \o "|" \o tr.ev[i].op)
     /\ After(tr, tr.ev[i])
     /\ i' = i + 1 /\ UNCHANGED t
  \/ /\ i = Len(tr.ev) + 1
     /\ PrintT("DONE|" \o tr.id)
     /\ i' = i + 1 /\ UNCHANGED <<t, cat, fresh, cur>>
Spec == Init /\ [][Next]_vars
=============================================================================

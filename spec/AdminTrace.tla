----------------------------- MODULE AdminTrace -----------------------------
(***************************************************************************)
(* Trace validation of creating, deleting and using databases when this is *)
(* interrupted (C25), and when several sessions do it at once (C26).       *)
(* e.post: what is in the folder after the event, a set of [n, f, s]: the  *)
(* name, the files that are there, the stored state they have together.    *)
(* seen: what was there before the event.  on: there was an interruption   *)
(* (C25), or something at the same time (C26).  cut: names on which an     *)
(* operation was interrupted.                                              *)
(***************************************************************************)
EXTENDS Admin, Wql, Graph, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
VARIABLES t, i, seen, on, cut
vars == <<t, i, seen, on, cut>>

Entry(st, nm) == {x \in Range(st) : x.n = nm}
Kind(st, nm) ==
  LET x == Entry(st, nm) IN
  IF x = {} THEN "gone" ELSE IF \E y \in x : Range(y.f) = {"db", "idx", "num"} THEN "whole" ELSE "part"
State(tr, st, nm) == IF Entry(st, nm) = {} THEN Empty ELSE tr.snaps[(CHOOSE x \in Entry(st, nm) : TRUE).s]
NamesOf(st) == {x.n : x \in Range(st)}
Only(e, names) == If(~(Range(e.touched) \subseteq names), "the files of another database were changed")
                  \cup If(e.outside, "something outside the folder of databases was changed")
IsNew(s) ==
     If(~s.ok, "a file of a new database cannot be read")
  \cup IF ~s.ok THEN {} ELSE
       If(s.nodes # <<>> \/ s.rels # <<>>, "a new database is not empty")
  \cup If(s.il # <<>> \/ s.ir # <<>> \/ s.inr # <<>>, "a new database has index entries")
  \cup If(s.ctr # 0, "a new database does not number from 0")
NotTwice(q) == Cardinality(Range(q)) = Len(q)
Effects(pre, makes, post) == C01Made(pre, makes, post) \cup C02Made(pre, makes, post) \cup C07Made(pre, makes, post)
Indexes(nm, post) == IF nm \in cut THEN C05Super(post) ELSE C05Exact(post)

(******************* one operation, which ended ****************************)
Done(tr, e) ==
  LET k == Kind(seen, e.name)
      k2 == Kind(e.post, e.name)
      pre == State(tr, seen, e.name)
      post == State(tr, e.post, e.name)
      ok == e.res = "ok" IN
  If(e.res \in {"hang", "died"}, "an operation did not end") \cup
  CASE e.op = "new" ->
         IF k = "whole" \/ ~ok
         THEN If(ok, "a name that is taken is not refused") \cup If(~ok /\ k = "gone", "a free name is refused") \cup Only(e, {})
         ELSE Only(e, {e.name}) \cup If(~e.right, "the files returned are not those of the database")
              \cup If(k2 # "whole", "a new database is not whole") \cup (IF k2 = "whole" THEN IsNew(post) ELSE {})
    [] e.op = "del" ->
         IF k = "gone" THEN If(ok, "a database that does not exist is deleted") \cup Only(e, {})
         ELSE If(~ok \/ k2 # "gone", "a database, or what is left of one, cannot be deleted") \cup Only(e, {e.name})
    [] e.op = "open" ->
         Only(e, {}) \cup (IF k = "whole" THEN If(~ok \/ ~e.right, "a whole database cannot be opened")
                           ELSE If(ok, "a database that is missing a file, or does not exist, is opened"))
    [] e.op = "list" ->
         Only(e, {}) \cup If(~ok, "the databases cannot be listed")
         \cup (IF ~ok THEN {} ELSE
               If(~({x \in NamesOf(seen) : Kind(seen, x) = "whole"} \subseteq Range(e.list)), "a database is not listed")
               \cup If(~(Range(e.list) \subseteq NamesOf(seen)), "something is listed that does not exist")
               \cup If(~NotTwice(e.list), "a database is listed twice"))
    [] e.op = "q" ->
         LET m == Meaning(e.t) IN
         IF k = "part" /\ Prop = "C26" THEN Only(e, {e.name})    \* of a session that had opened it before
         ELSE IF k # "whole" THEN If(ok, "a query on what is no whole database is accepted") \cup Only(e, {})
         ELSE Only(e, {e.name})
              \cup If(~pre.ok, "what can be opened cannot be read")
              \cup If(m.cls = "ok" /\ ~ok, "a query on a whole database fails")
              \cup IF ~pre.ok \/ ~ok \/ m.cls # "ok" THEN {} ELSE
                   If(~post.ok, "a file of the database cannot be read")
                   \cup IF ~post.ok THEN {} ELSE
                        Effects(pre, m.makes, post) \cup C04Kept(pre, post) \cup C03State(post) \cup Indexes(e.name, post)
                        \cup (IF Len(m.finds) = 1 /\ Len(m.finds[1]) = 1 /\ ~PatWild(m.finds[1][1])
                              THEN C09Sound(post, m.finds[1][1], e.none)
                                   \cup (IF e.name \in cut THEN {} ELSE C09Complete(post, m.finds[1][1], e.none))
                              ELSE {})
    [] OTHER -> {}

(******************* one that was killed, or whose work failed *************)
Cut(tr, e) ==
  LET k == Kind(seen, e.name)
      k2 == Kind(e.post, e.name)
      pre == State(tr, seen, e.name)
      post == State(tr, e.post, e.name)
      ok == e.res = "ok" IN
  Only(e, {e.name}) \cup If(e.mode = "fail" /\ e.res = "hang", "an operation did not end") \cup
  CASE e.op = "new" ->
         IF k = "whole" THEN If(ok, "a name that is taken is not refused") \cup Only(e, {})
         ELSE If(ok /\ k2 # "whole", "the creation of a database went wrong without an error")
              \cup (IF k2 = "whole" THEN IsNew(post) ELSE {})
    [] e.op = "del" ->
         If(ok /\ k2 # "gone", "the deletion of a database went wrong without an error")
         \cup If(ok /\ k = "gone", "a database that does not exist is deleted")
         \cup If(k2 = "whole" /\ (k # "whole" \/ post # pre), "a database that was not deleted is not what it was")
         \cup If(k = "gone" /\ k2 # "gone", "deleting made a database")
    [] OTHER -> {}

(******************* several at the same time ******************************)
(* a query that is not well formed, or whose meaning is open, may be refused: then it does nothing *)
OpOf(e) == IF e.op = "q" THEN LET m == Meaning(e.t) IN
                              IF m.cls # "ok" THEN "any" ELSE IF m.makes # <<>> THEN "make" ELSE "find"
           ELSE e.op
Together(tr, e) ==
  LET Ops == Range(e.ops)
      Mine(nm) == {j \in 1..Len(e.ops) : e.ops[j].name = nm /\ e.ops[j].op # "list"}
      AsOp(j) == [op |-> OpOf(e.ops[j]), id |-> j, mode |-> e.ops[j].mode, res |-> e.ops[j].res, s |-> e.ops[j].s, e |-> e.ops[j].e]
      First(nm) == LET k == Kind(seen, nm) IN IF k = "gone" THEN Gone ELSE IF k = "part" THEN Part ELSE Is(0, <<>>)
      Makes(q) == FlattenSeq([x \in 1..Len(q) |-> Meaning(e.ops[q[x]].t).makes])
      Dead(nm) == \E j \in Mine(nm) : e.ops[j].mode = "kill"
      Matches(nm, r) ==
        LET post == State(tr, e.post, nm)
            base == IF r.by = 0 THEN State(tr, seen, nm) ELSE Empty IN
        /\ r.k = Kind(e.post, nm)
        /\ r.k = "whole" => post.ok /\ Effects(base, Makes(r.mk), post) = {} /\ C04Kept(base, post) = {}
      Name(nm) ==
        LET post == State(tr, e.post, nm)
            whole == Kind(e.post, nm) = "whole"
            res == Results(First(nm), {AsOp(j) : j \in Mine(nm)}) IN
        If(whole /\ ~post.ok, "a file of the database cannot be read")
        \cup If(res = {}, "what was accepted and refused is not possible one after the other")
        \cup If(res # {} /\ ~\E r \in res : r.k = Kind(e.post, nm), "a database exists, or does not, as it would after no order of the operations")
        \cup If(res # {} /\ (\E r \in res : r.k = Kind(e.post, nm)) /\ (whole => post.ok) /\ ~\E r \in res : Matches(nm, r),
                "what is stored is not what the operations make one after the other, in any order")
        \cup (IF whole /\ post.ok THEN C03State(post) \cup (IF Dead(nm) \/ nm \in cut THEN C05Super(post) ELSE C05Exact(post)) ELSE {})
      Listed(o) ==
        LET all == {x \in NamesOf(seen) : Kind(seen, x) = "whole" /\ ~\E y \in Ops : y.op = "del" /\ y.name = x}
            may == NamesOf(seen) \cup {y.name : y \in {z \in Ops : z.op = "new"}} IN
        If(o.res # "ok", "the databases cannot be listed")
        \cup (IF o.res # "ok" THEN {} ELSE
              If(~(all \subseteq Range(o.list)), "a database that was there all the time is not listed")
              \cup If(~(Range(o.list) \subseteq may), "something is listed that does not exist")
              \cup If(~NotTwice(o.list), "a database is listed twice")) IN
     Only(e, {o.name : o \in {x \in Ops : x.op # "list"}})
  \cup If(\E o \in Ops : o.mode = "n" /\ o.res \in {"hang", "died"}, "an operation did not end")
  \cup UNION {Name(nm) : nm \in {y \in {o.name : o \in {x \in Ops : x.op # "list"}} :
                                  ~\E o \in Ops : o.name = y /\ OpOf(o) = "any" /\ o.res # "err"}}
  \cup UNION {Listed(o) : o \in {x \in Ops : x.op = "list" /\ x.mode = "n"}}

Verdict(tr, e) ==
  CASE e.op = "par" -> IF Prop = "C26" THEN Together(tr, e) ELSE {}
    [] e.mode # "n" -> IF Prop = "C25" THEN Cut(tr, e) ELSE {}
    [] OTHER -> IF on THEN Done(tr, e) ELSE {}
After(e) ==
  /\ seen' = e.post
  /\ on' = (on \/ e.op = "par" \/ e.mode # "n")
  /\ cut' = (CASE e.op = "par" -> cut \cup {o.name : o \in {x \in Range(e.ops) : x.mode # "n"}}
               [] e.mode # "n" -> cut \cup {e.name}
               [] e.op \in {"new", "del"} /\ e.res = "ok" -> cut \ {e.name}
               [] OTHER -> cut)

Init == t \in 1..Len(Traces) /\ i = 1 /\ seen = Traces[t].first /\ on = FALSE /\ cut = {}
Next ==
  LET tr == Traces[t] IN
  \/ /\ i <= Len(tr.ev)
     /\ \A r \in Verdict(tr, tr.ev[i]) : PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o r)
     /\ PrintT("EV|" \o tr.id \o "|" \o ToString(i) \o "|" \o tr.ev[i].op)
     /\ After(tr.ev[i])
     /\ i' = i + 1 /\ UNCHANGED t
  \/ /\ i = Len(tr.ev) + 1
     /\ PrintT("DONE|" \o tr.id)
     /\ i' = i + 1 /\ UNCHANGED <<t, seen, on, cut>>
Spec == Init /\ [][Next]_vars
=============================================================================

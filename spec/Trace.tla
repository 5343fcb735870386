------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: is what was observed on the real code a behaviour of  *)
(* the specification?  IOEnv.TRACES names an ndjson file with one trace    *)
(* per line, IOEnv.PROP the property to decide.  One initial state per     *)
(* trace, one step per event.  Every event gets a verdict, the set of the  *)
(* reasons why it breaks the property; it is printed when not empty.  The  *)
(* specification then goes on from the state that was observed, so that    *)
(* one trace can show more than one violation.                             *)
(*                                                                         *)
(* Trace: [id, snaps, ev, n]: stored states, events, number of databases.  *)
(* h[d] is what the specification remembers about database d:              *)
(*   cur     the stored state, an index into snaps                         *)
(*   issued  the largest number seen in use                                *)
(*   intr    a query was interrupted, or failed                            *)
(*   rej     a query was rejected                                           *)
(*   q       number of queries since the database was made                 *)
(*   mult    several queries wrote to it at the same time                   *)
(*   loose   a query had a meaning that the language leaves open           *)
(*   made    the patterns of all accepted MAKEs, in order                  *)
(***************************************************************************)
EXTENDS Wql, Request, Reading, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop == IOEnv.PROP
ASSUME PrintT("TRACES " \o ToString(Len(Traces)))

VARIABLES t, i, h
vars == <<t, i, h>>

Larger(a, b) == IF a > b THEN a ELSE b
Snap(tr, d) == tr.snaps[h[d].cur]
FromStart(s) == [cur |-> s, issued |-> -1, intr |-> FALSE, rej |-> FALSE, q |-> 0, loose |-> FALSE, mult |-> FALSE, made |-> <<>>]
Ids(s, k) == [j \in 1..Len(s) |-> k \o s[j]]

Effects(pre, makes, post) == C01Made(pre, makes, post) \cup C02Made(pre, makes, post) \cup C07Made(pre, makes, post)

(******************* a query that ran to its end ***************************)
OkAccepted(p, pre, post, m, e, hd) ==
  LET mk == m.makes IN
  CASE p = "C01" -> C01Made(pre, mk, post)
    [] p = "C02" -> C02Made(pre, mk, post)
    [] p = "C07" -> C07Made(pre, mk, post)
    [] p = "C08" -> C08Made(pre, mk, post)
    [] p = "C10" -> C01Made(pre, mk, post) \cup C02Made(pre, mk, post)
    [] p = "C11" \/ p = "C12" \/ p = "C13" -> {}
    [] p = "C14" \/ p = "C15" ->
         IF hd.intr THEN C01Made(pre, mk, post) \cup C02Made(pre, mk, post) ELSE {}
    [] p \in {"C23", "C24"} -> Effects(pre, mk, post)
    [] p = "C18" -> C01Made(pre, mk, post) \cup C02Made(pre, mk, post) \cup C07Made(pre, mk, post)
    [] OTHER -> {}

(* what every completed query must satisfy, whatever its text              *)
Always(p, pre, post, m, e, hd) ==
  CASE p = "C03" -> C03Step(pre, post, hd.issued)
                    \cup (IF e.res = "ok" /\ ~hd.intr THEN C03Counter(post) ELSE {})
    [] p = "C04" -> C04Kept(pre, post)
                    \cup (IF m.makes = <<>> /\ m.cls \in {"ok", "may"} THEN C04ReadOnly(pre, post) ELSE {})
    [] p = "C05" -> IF hd.intr THEN C05Super(post) ELSE C05Exact(post)
    [] p = "C06" -> IF e.res = "err" THEN C06Rejected(pre, post) ELSE {}
    [] p \in {"C14", "C15"} ->
         IF hd.intr THEN C04Kept(pre, post) \cup C03Step(pre, post, hd.issued) \cup C05Super(post)
                         \cup (IF e.res = "err" THEN If(NewNodes(pre, post) # <<>>, "a rejected query stored nodes") ELSE {})
         ELSE {}
    [] p = "C16" -> If(e.oth # <<>>, "a query on one database changed another")
    [] p = "C23" -> C04Kept(pre, post) \cup C03Step(pre, post, hd.issued) \cup C05Super(post)
    [] p = "C24" -> IF hd.intr THEN C05Super(post) ELSE C05Exact(post) \cup C03Counter(post)
    [] p = "C17" -> IF hd.q = 0 /\ e.res = "ok" /\ NewNodes(pre, post) # <<>>
                    THEN If(NewNodes(pre, post)[1].wn # 0, "the numbers of a new database do not start at 0") ELSE {}
    [] p = "C18" -> If(e.oth # <<>>, "a query changed another database than the chosen one")
                    \cup (IF e.res = "err" THEN C06Rejected(pre, post) ELSE {})
    [] p = "C19" -> C19Made(pre, post, e.t0, e.t1) \cup C19Kept(pre, post)
    [] OTHER -> {}

Finding(p, post, m, e, hd) ==
  IF e.res = "ok" /\ m.cls \in {"ok", "may"} /\ Len(m.finds) = 1 /\ Len(m.finds[1]) = 1
  THEN LET pat == m.finds[1][1] IN
       IF PatWild(pat) THEN {}
       ELSE CASE p = "C09" -> C09Sound(post, pat, e.none)
                              \cup (IF hd.intr THEN {} ELSE C09Complete(post, pat, e.none))
              [] p \in {"C14", "C15"} -> IF hd.intr THEN C09Sound(post, pat, e.none) ELSE {}
              [] p = "C18" -> C09Sound(post, pat, e.none) \cup C09Complete(post, pat, e.none)
              [] p \in {"C23", "C24"} -> C09Sound(post, pat, e.none)
                              \cup (IF hd.intr THEN {} ELSE C09Complete(post, pat, e.none))
              [] OTHER -> {}
  ELSE {}

HasRels(m) == \E ps \in Range(m.makes) \cup Range(m.finds) : \E pat \in Range(ps) : pat.rs # <<>>
Accepting(p, m, e, hd) ==      \* accepted although it must not be, or the reverse
  CASE e.res = "ok" /\ m.cls = "bad" -> {"accepted: " \o w[2] : w \in {x \in m.why : x[1] = p}}
    [] e.res # "ok" /\ m.cls = "ok" ->
         IF \/ p = "C12" \/ p = "C13" \/ p = "C10" \/ p = "C18" \/ p = "C23" \/ p = "C24"
            \/ p = "C11" /\ HasRels(m)
            \/ p = "C06" /\ hd.rej
            \/ p = "C03" /\ e.exc = "NodeExistsError"
            \/ p \in {"C14", "C15"} /\ hd.intr
            \/ p = "C17" /\ hd.q = 0
         THEN {"a well formed query was rejected"} ELSE {}
    [] e.res = "hang" /\ p \in {"C12", "C18"} -> {"a query did not end"}
    [] OTHER -> {}

NormalQuery(p, pre, post, m, e, hd) ==
  If(~post.ok /\ ~(p = "C23" /\ hd.mult) /\ p \in {"C01", "C02", "C04", "C05", "C06", "C08", "C09", "C12", "C14", "C15", "C16", "C18", "C23", "C24"},
     "a file of the database cannot be read")
  \cup IF ~post.ok \/ (p = "C23" /\ hd.mult) THEN {} ELSE
       Always(p, pre, post, m, e, hd)
       \cup Accepting(p, m, e, hd)
       \cup (IF e.res = "ok" /\ m.cls \in {"ok", "may"} THEN OkAccepted(p, pre, post, m, e, hd) ELSE {})
       \cup Finding(p, post, m, e, hd)

(******************* a query that was killed, or whose writing failed ******)
Interrupted(p, pre, post, m, e, hd) ==
  LET clauses ==
        If(~post.ok, "a file of the database cannot be read")
        \cup IF ~post.ok THEN {} ELSE
             C04Kept(pre, post)
             \cup (IF m.cls \in {"ok", "may"} THEN AllOrNone(pre, m.makes, post) ELSE {})
             \cup C03State(post) \cup C05Super(post) IN
  CASE p = "C14" /\ e.mode = "kill" -> clauses
    [] p = "C15" /\ e.mode = "fail" ->
         clauses \cup If(e.res # "err", "the query did not end with an error")
    [] p = "C03" /\ post.ok -> C03Step(pre, post, hd.issued)
    [] p = "C04" /\ post.ok -> C04Kept(pre, post)
    [] p = "C05" /\ post.ok -> C05Super(post)
    [] OTHER -> {}

(******************* queries at the same time *******************************)
(* e.qs: queries, each of a session of its own, stopped and let go at      *)
(* points of their work; e.looks: queries of another session that ran      *)
(* while these were stopped, or waiting; e.post: the databases at the end. *)
(* A look knows the state before and after it; when nothing else could     *)
(* have run meanwhile (still) it accounts for the difference.              *)
IsOk(m) == m.cls \in {"ok", "may"}
OneFind(m) == IsOk(m) /\ Len(m.finds) = 1 /\ Len(m.finds[1]) = 1 /\ ~PatWild(m.finds[1][1])
Writers(e, d) == SelectSeq(e.qs, LAMBDA q : q.db = d /\ Meaning(q.t).makes # <<>>)
NoKill(e) == \A j \in 1..Len(e.qs) : e.qs[j].mode = "n"
Answered(q, m) ==
     If(q.mode = "n" /\ q.res \in {"hang", "died"}, "a query did not end")
  \cup If(q.mode = "n" /\ q.res # "ok" /\ m.cls = "ok", "a well formed query was rejected")
Look(tr, e, k) ==
  LET l == e.looks[k]
      m == Meaning(l.t)
      pre == tr.snaps[l.pre]
      post == tr.snaps[l.post]
      end == tr.snaps[e.post[l.db]] IN
     Answered(l @@ [mode |-> "n"], m)
  \cup If(~pre.ok \/ ~post.ok, "a file of the database cannot be read while a query runs")
  \cup If(l.oth # <<>>, "a query on one database changed another")
  \cup IF ~pre.ok \/ ~post.ok THEN {} ELSE
       C03State(pre) \cup C05Super(pre)
       \cup (IF l.still /\ m.makes = <<>> /\ IsOk(m) THEN C04ReadOnly(pre, post) ELSE {})
       \cup (IF l.still /\ l.res = "err" THEN C06Rejected(pre, post) ELSE {})
       \cup (IF l.still /\ l.res = "ok" /\ IsOk(m) /\ l.db \notin Range(l.busy) THEN Effects(pre, m.makes, post) ELSE {})
       \cup (IF l.res = "ok" /\ OneFind(m)
             THEN C09Sound(pre, m.finds[1][1], l.none)
                  \cup (IF NoKill(e) /\ end.ok THEN C09Complete(end, m.finds[1][1], l.none) ELSE {})
             ELSE {})
(* one query writes to the database, or none does                          *)
Alone(tr, e, d) ==
  LET pre == Snap(tr, d)
      post == tr.snaps[e.post[d]]
      ws == Writers(e, d) IN
     If(~post.ok, "a file of the database cannot be read")
  \cup UNION {Answered(e.qs[j], Meaning(e.qs[j].t)) : j \in {x \in 1..Len(e.qs) : e.qs[x].db = d}}
  \cup IF ~post.ok THEN {} ELSE
       C04Kept(pre, post) \cup C03Step(pre, post, h[d].issued) \cup C05Super(post)
       \cup (IF ws = <<>> /\ ~\E k \in 1..Len(e.looks) : e.looks[k].db = d /\ Meaning(e.looks[k].t).makes # <<>>
             THEN C04ReadOnly(pre, post) ELSE {})
       \cup UNION {LET q == e.qs[j]
                       m == Meaning(q.t) IN
                   IF q.db = d /\ q.res = "ok" /\ OneFind(m)
                   THEN C09Sound(pre, m.finds[1][1], q.none)
                        \cup (IF NoKill(e) THEN C09Complete(post, m.finds[1][1], q.none) ELSE {})
                   ELSE {} : j \in 1..Len(e.qs)}
       \cup (IF Len(ws) # 1 \/ \E k \in 1..Len(e.looks) : e.looks[k].db = d /\ Meaning(e.looks[k].t).makes # <<>> THEN {}
             ELSE LET q == ws[1]
                      m == Meaning(q.t) IN
                  IF ~IsOk(m) THEN {}
                  ELSE IF q.mode = "kill" THEN AllOrNone(pre, m.makes, post)
                  ELSE IF q.res = "ok" THEN Effects(pre, m.makes, post)
                  ELSE C06Rejected(pre, post))
(* several queries write to it: as if they had run one after the other     *)
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : f[a] = f[b] => a = b}
Together(tr, e, d) ==
  LET pre == Snap(tr, d)
      post == tr.snaps[e.post[d]]
      ws == Writers(e, d)
      ms == [j \in 1..Len(ws) |-> Meaning(ws[j].t)]
      whole == {j \in 1..Len(ws) : ws[j].mode = "n" /\ ws[j].res = "ok"}
      may == {j \in 1..Len(ws) : ws[j].mode = "kill"} IN
     If(~post.ok, "a file of the database cannot be read")
  \cup UNION {Answered(ws[j], ms[j]) : j \in 1..Len(ws)}
  \cup IF ~post.ok \/ \E j \in 1..Len(ws) : ~IsOk(ms[j]) THEN {} ELSE
       C04Kept(pre, post) \cup C03Step(pre, post, h[d].issued)
       \cup (IF may = {} THEN C05Exact(post) \cup C03Counter(post) ELSE C05Super(post))
       \cup If(\A S \in SUBSET may : \A f \in Orders(whole \cup S) :
                 Effects(pre, FlattenSeq([x \in 1..Cardinality(whole \cup S) |-> ms[f[x]].makes]), post) # {},
               "the graph is not what the queries make one after the other, in any order")
Parallel(p, tr, e) ==
  CASE p = "C23" -> UNION {Look(tr, e, k) : k \in {x \in 1..Len(e.looks) : Len(Writers(e, e.looks[x].db)) < 2}}
                    \cup UNION {Alone(tr, e, d) : d \in {x \in 1..tr.n : Len(Writers(e, x)) < 2}}
    [] p = "C24" -> UNION {Look(tr, e, k) : k \in {x \in 1..Len(e.looks) : Len(Writers(e, e.looks[x].db)) > 1}}
                    \cup UNION {Together(tr, e, d) : d \in {x \in 1..tr.n : Len(Writers(e, x)) > 1}}
    [] OTHER -> {}
AfterParallel(tr, e) ==
  [d \in 1..tr.n |->
     LET post == tr.snaps[e.post[d]] IN
     [h[d] EXCEPT !.cur = e.post[d], !.q = @ + 1, !.loose = TRUE, !.mult = @ \/ Len(Writers(e, d)) > 1,
        !.intr = @ \/ \E q \in Range(e.qs) : q.db = d /\ (q.mode # "n" \/ q.res \in {"died", "hang"}),
        !.issued = IF post.ok THEN Larger(@, MaxWn(post)) ELSE @]]

(******************* comparing databases, and queries **********************)
SameGraph(a, b, what) ==
  If(Canon(a) # Canon(b), "the graphs differ: " \o what)
  \cup If(CanonIndex(a) # CanonIndex(b), "the indexes differ: " \o what)
(* e.dbs: databases built from the same queries; e.evs: events with the    *)
(* same queries; e.same: they are the same query, each on its own database *)
(* Only queries that the language accepts are compared, on databases that  *)
(* accepted the same MAKEs, whatever else was tried on them.               *)
Compare(tr, e) ==
  LET first == Snap(tr, e.dbs[1]) IN
  IF \/ \E j \in 1..Len(e.dbs) : h[e.dbs[j]].loose
     \/ \E j \in 1..Len(e.evs) : Meaning(tr.ev[e.evs[j]].t).cls # "ok" THEN {} ELSE
     UNION {SameGraph(first, Snap(tr, e.dbs[j]), e.what) :
              j \in {k \in 2..Len(e.dbs) : h[e.dbs[k]].made = h[e.dbs[1]].made}}
  \cup If(\E j \in 2..Len(e.evs) : tr.ev[e.evs[j]].res # tr.ev[e.evs[1]].res,
          "accepted or rejected, depending on " \o e.what)
  \cup If(e.same /\ (\A j \in 2..Len(e.dbs) : h[e.dbs[j]].made = h[e.dbs[1]].made)
          /\ \E j \in 2..Len(e.evs) : tr.ev[e.evs[j]].none # tr.ev[e.evs[1]].none,
          "FIND has results or not, depending on " \o e.what)

(* a query is accepted or rejected for its text, not for what was before   *)
AsBefore(tr, e) ==
  If(e.res \in {"ok", "err"} /\ \E j \in 1..(i - 1) :
       LET x == tr.ev[j] IN x.op = "q" /\ x.mode = "n" /\ x.res \in {"ok", "err"} /\ x.res # e.res /\ x.t = e.t,
     "the same query was accepted and rejected")

(******************* a new database ****************************************)
NewDatabase(s) ==
     If(~s.ok, "a file of a new database cannot be read")
  \cup If(s.nodes # <<>> \/ s.rels # <<>>, "a new database is not empty")
  \cup If(s.il # <<>> \/ s.ir # <<>> \/ s.inr # <<>>, "a new database has index entries")
  \cup If(s.ctr # 0, "a new database does not number from 0")

(******************* the search request ************************************)
RequestOf(m, e) ==
  IF m.cls # "ok" \/ Len(m.finds) # 1 \/ Len(m.finds[1]) # 1 THEN {}
  ELSE LET pat == m.finds[1][1] IN
     If(e.res # "ok", "no search request is made from a well formed FIND")
     \cup IF e.res # "ok" THEN {} ELSE RequestFaults(pat, e.out)

(* twice from the same FIND and criteria, then without the criteria        *)
CriteriaOf(m, e) ==
  IF m.cls # "ok" \/ Len(m.finds) # 1 \/ Len(m.finds[1]) # 1 THEN {}
  ELSE LET pat == m.finds[1][1] IN
     If(e.res # "ok", "no search request is made from a well formed FIND and criteria")
     \cup IF e.res # "ok" THEN {} ELSE
          CriteriaFaults(pat, e.crit, e.out.outs[1])
     \cup If(CriteriaFaults(pat, e.crit, e.out.outs[2]) # {}, "the same request cannot be made a second time")
     \cup If(RequestFaults(pat, e.out.outs[3]) # {}, "criteria are left behind in the FIND")
     \cup If(Range(e.out.crit) # Range(e.crit), "the criteria are changed")

(******************* the reading of a query ********************************)
ReadingOf(tr, e) ==
     If(\E j \in 1..i - 1 : tr.ev[j].op = "read" /\ tr.ev[j].t = e.t /\ (tr.ev[j].res # e.res \/ tr.ev[j].out # e.out),
        "the same query is not read the same again")
  \cup IF Meaning(e.t).cls # "ok" THEN {}
       ELSE IF e.res # "ok" THEN {"a well formed query is not read"}
       ELSE ReadFaults(e.t, e.out)

(******************* the step **********************************************)
Verdict(p, tr, e) ==
  CASE e.op = "q" ->
         LET pre == Snap(tr, e.db)
             post == tr.snaps[e.post]
             m == Meaning(e.t) IN
         IF e.mode = "n" THEN NormalQuery(p, pre, post, m, e, h[e.db]) \cup (IF p = "C20" THEN AsBefore(tr, e) ELSE {})
         ELSE Interrupted(p, pre, post, m, e, h[e.db])
    [] e.op = "cmp" -> IF p = e.prop THEN Compare(tr, e) ELSE {}
    [] e.op = "new" ->
         (IF p \in {"C16", "C17"} /\ e.res # "ok" THEN {"a new database cannot be made"} ELSE {})
         \cup (IF p = "C17" /\ e.res = "ok" THEN NewDatabase(tr.snaps[e.post]) ELSE {})
    [] e.op = "par" -> Parallel(p, tr, e)
    [] e.op = "pre" -> IF p = "C21" THEN RequestOf(Meaning(e.t), e) ELSE {}
    [] e.op = "crit" -> IF p = "C27" THEN CriteriaOf(Meaning(e.t), e) ELSE {}
    [] e.op = "read" -> IF p = "C28" THEN ReadingOf(tr, e) ELSE {}
    [] OTHER -> {"unknown event"}

After(tr, e) ==
  CASE e.op = "q" ->
         [h EXCEPT ![e.db] =
            [cur |-> e.post, q |-> @.q + 1, mult |-> @.mult, intr |-> @.intr \/ e.mode # "n",
             rej |-> @.rej \/ (e.mode = "n" /\ e.res # "ok"),
             made |-> IF e.res = "ok" /\ Meaning(e.t).cls = "ok" THEN @.made \o Flat(Meaning(e.t).makes) ELSE @.made,
             loose |-> @.loose \/ LET c == Meaning(e.t).cls IN
                                   c \in {"may", "open"} \/ (c = "bad" /\ e.res = "ok"),
             issued |-> IF tr.snaps[e.post].ok THEN Larger(@.issued, MaxWn(tr.snaps[e.post])) ELSE @.issued]]
    [] e.op = "new" -> [h EXCEPT ![e.db] = FromStart(e.post)]
    [] e.op = "par" -> AfterParallel(tr, e)
    [] OTHER -> h

Init == /\ t \in 1..Len(Traces)
        /\ i = 1
        /\ h = [d \in 1..Traces[t].n |->
                  [FromStart(Traces[t].start[d]) EXCEPT
                     !.issued = MaxWn(Traces[t].snaps[Traces[t].start[d]])]]

Next ==
  LET tr == Traces[t] IN
  \/ /\ i <= Len(tr.ev)
     /\ \A r \in Verdict(Prop, tr, tr.ev[i]) :
           PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o r)
     /\ tr.ev[i].op \in {"q", "pre", "crit", "read"} =>
          PrintT("EV|" \o tr.id \o "|" \o ToString(i) \o "|" \o Meaning(tr.ev[i].t).cls)
     /\ h' = After(tr, tr.ev[i])
     /\ i' = i + 1
     /\ UNCHANGED t
  \/ /\ i = Len(tr.ev) + 1
     /\ PrintT("DONE|" \o tr.id)
     /\ i' = i + 1
     /\ UNCHANGED <<t, h>>
Spec == Init /\ [][Next]_vars
=============================================================================

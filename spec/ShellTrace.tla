----------------------------- MODULE ShellTrace -----------------------------
(* Trace validation of interactive sessions: C18.                          *)
EXTENDS Shell, Wql, Graph, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, ses, cat, cur, base, shown
vars == <<t, i, ses, cat, cur, base, shown>>
(* cur: set of <<name, stored state>>; base: what the shell prints at least *)
(* after a query (-1: not known yet); shown: the letters last displayed     *)

(* only short lines are ever compared with something                       *)
Str(cs) == IF Len(cs) > 200 THEN "(a long line)" ELSE FoldLeft(LAMBDA a, b : a \o b, "", cs)
RECURSIVE TrimL(_)
TrimL(cs) == IF cs # <<>> /\ Head(cs) \in Blanks THEN TrimL(Tail(cs)) ELSE cs
Trim(cs) == Reverse(TrimL(Reverse(TrimL(cs))))
Trimmed(cs) == Str([j \in 1..Len(Trim(cs)) |-> Low(Trim(cs)[j])])

NamesOf(e) == {e.state[j].n : j \in 1..Len(e.state)}
SnapOf(e, nm) == (CHOOSE x \in Range(e.state) : x.n = nm).s
CatOf(e) == {[n |-> x.n, f |-> IF x.full THEN Files ELSE {"some"}] : x \in Range(e.state)}
CurOf(e) == {<<x.n, x.s>> : x \in Range(e.state)}
Cur(nm) == (CHOOSE x \in cur : x[1] = nm)[2]

Step(e) == Reply(ses, cat, shown, Str(e.t), Trimmed(e.t), e.line)
OthersSame(e, but) ==
     If(NamesIn(cat) \ but # NamesOf(e) \ but, "a database appeared or disappeared")
  \cup If(\E x \in Range(e.state) : x.n \notin but /\ \E y \in cur : y[1] = x.n /\ y[2] # x.s,
          "the line changed another database than the chosen one")

Executed(tr, e) ==
  LET m == Meaning(e.t)
      pre == tr.snaps[Cur(ses.db)]
      post == tr.snaps[IF ses.db \in NamesOf(e) THEN SnapOf(e, ses.db) ELSE Cur(ses.db)]
      done == m.cls = "ok" \/ (m.cls = "may" /\ pre # post) IN
     If(~post.ok, "a file of the database cannot be read")
  \cup IF ~post.ok THEN {} ELSE
     (IF done THEN C01Made(pre, m.makes, post) \cup C02Made(pre, m.makes, post) \cup C07Made(pre, m.makes, post)
                   \cup C04Kept(pre, post)
      ELSE IF m.cls # "open" THEN C06Rejected(pre, post) ELSE C04Kept(pre, post))
  \cup (IF m.cls = "ok" /\ m.makes = <<>> THEN C04ReadOnly(pre, post) ELSE {})
  \cup (IF m.cls = "ok" /\ Len(m.finds) = 1 /\ Len(m.finds[1]) = 1 /\ ~PatWild(m.finds[1][1])
        THEN C09Sound(post, m.finds[1][1], e.none) \cup C09Complete(post, m.finds[1][1], e.none) ELSE {})
  \cup If(m.cls = "bad" /\ base >= 0 /\ e.extra <= base, "an error is not reported")

(* a file of the database was not there: all or nothing, and said so        *)
Failed(tr, e) ==
  LET m == Meaning(e.t)
      pre == tr.snaps[Cur(ses.db)]
      post == tr.snaps[IF ses.db \in NamesOf(e) THEN SnapOf(e, ses.db) ELSE Cur(ses.db)] IN
     If(~post.ok, "a file of the database cannot be read")
  \cup IF ~post.ok THEN {}
     ELSE C04Kept(pre, post)
       \cup If(NewNodes(pre, post) # <<>> /\ C01Made(pre, m.makes, post) # {}, "part of a query that failed is stored")
       \cup If(m.cls \in {"ok", "bad"} /\ (m.cls = "bad" \/ m.makes # <<>>) /\ NewNodes(pre, post) = <<>> /\ base >= 0 /\ e.extra <= base,
              "an error is not reported")

Verdict(tr, e) ==
  IF e.op = "start" THEN If(e.ended, "the session does not start")
  ELSE LET a == Step(e)
           over == a[1].stage = "over" IN
     If(e.ended /\ ~over, "the session ended: " \o e.how)
  \cup If(over /\ ~e.ended, "q does not end the session")
  \cup If(over /\ e.ended /\ e.how # "returned", "the session ended with an error")
  \cup (IF e.ended /\ ~over THEN {}
        ELSE IF Executes(ses, Str(e.t), Trimmed(e.t)) THEN (IF e.fail THEN Failed(tr, e) ELSE Executed(tr, e)) \cup OthersSame(e, {ses.db})
        ELSE IF ses.stage = "name" /\ CanCreate(cat, e.line)
             THEN OthersSame(e, {e.line}) \cup If(e.line \notin NamesOf(e), "the database is not created")
        ELSE OthersSame(e, {}))

Init == /\ t \in 1..Len(Traces) /\ i = 1 /\ ses = Begin /\ cat = {} /\ cur = {} /\ base = -1 /\ shown = <<>>
Next ==
  LET tr == Traces[t] IN
  \/ /\ i <= Len(tr.ev)
     /\ LET e == tr.ev[i] IN
        /\ \A r \in Verdict(tr, e) : PrintT("VIOL|" \o tr.id \o "|" \o ToString(i) \o "|" \o r)
        /\ PrintT("EV|" \o tr.id \o "|" \o ToString(i) \o "|" \o
                  IF e.op = "line" /\ Executes(ses, Str(e.t), Trimmed(e.t)) THEN Meaning(e.t).cls ELSE e.op)
        /\ ses' = IF e.op = "start" THEN Begin ELSE Step(e)[1]
        /\ cat' = CatOf(e) /\ cur' = CurOf(e)
        /\ shown' = IF e.shown = <<>> THEN shown ELSE e.shown
        /\ base' = IF e.op = "line" /\ Executes(ses, Str(e.t), Trimmed(e.t)) /\ Meaning(e.t).cls = "ok" /\ Meaning(e.t).finds = <<>> /\ ~e.fail
                   THEN e.extra ELSE base
     /\ i' = i + 1 /\ UNCHANGED t
  \/ /\ i = Len(tr.ev) + 1
     /\ PrintT("DONE|" \o tr.id)
     /\ i' = i + 1 /\ UNCHANGED <<t, ses, cat, cur, base, shown>>
Spec == Init /\ [][Next]_vars
=============================================================================

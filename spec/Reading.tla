------------------------------ MODULE Reading ------------------------------
(***************************************************************************)
(* The parts a query is read into before anything is run (C28): a part for *)
(* every MAKE with its patterns, one for the FIND with its first pattern   *)
(* and the handles of all, one for the REPORT; each keeps its text.        *)
(***************************************************************************)
EXTENDS Wql, Graph

Words(ts) == [j \in 1..Len(ts) |-> <<ts[j].t, ts[j].v>>]
(* the texts of the statements with keyword kw, as words                   *)
TextsOf(text, kw) == LET st == SelectSeq(Lex(text).stmts, LAMBDA s : s.toks # <<>> /\ s.toks[1].lo = kw) IN
  [j \in 1..Len(st) |-> Words(st[j].toks)]
SameText(w, t) == LET lx == Lex(t) IN lx.toks = <<>> /\ Len(lx.stmts) = 1 /\ Words(lx.stmts[1].toks) = w
Written(hs) == {x \in Range(hs) : x # ""}
FirstOf(ps) == <<ps[1]>>
AllHandles(ps) == UNION {Range(Handles(ps[j])) : j \in 1..Len(ps)}

SameNode(w, g) == g.l = w.l /\ g.h = w.h /\ SameProps(w.p, g.p)
SameRel(w, g) == g.n = w.n /\ g.h = w.h /\ g.d = w.d /\ SameProps(w.p, g.p)
PatternFaults(w, g) ==
     If(Len(g.ns) # Len(w.ns) \/ Len(g.rs) # Len(w.rs), "a pattern is read without a node or relationship, or with too many")
  \cup If(Len(g.ns) = Len(w.ns) /\ \E j \in 1..Len(w.ns) : ~SameNode(w.ns[j], g.ns[j]), "a node is not read as written")
  \cup If(Len(g.rs) = Len(w.rs) /\ \E j \in 1..Len(w.rs) : ~SameRel(w.rs[j], g.rs[j]), "a relationship is not read as written")
  \cup If(g.nn # Len(w.ns) \/ g.nr # Len(w.rs), "the number of nodes or relationships of a pattern is wrong")
  \cup If(Range(g.hs) # Range(Handles(w)), "the handles of a pattern are not those written")
PatternsFaults(w, g) ==
  IF Len(w) # Len(g) THEN {"not every pattern of a statement is read, or one too many"}
  ELSE UNION {PatternFaults(w[j], g[j]) : j \in 1..Len(w)}

ReadFaults(text, out) ==
  LET m == Meaning(text)
      mt == TextsOf(text, "make") ft == TextsOf(text, "find") rt == TextsOf(text, "report") IN
     If(Len(out.makes) # Len(m.makes), "not every MAKE is read, or one too many")
  \cup (IF Len(out.makes) # Len(m.makes) THEN {}
        ELSE UNION {PatternsFaults(m.makes[j], out.makes[j].ps) : j \in 1..Len(m.makes)}
             \cup If(\E j \in 1..Len(m.makes) : ~SameText(mt[j], out.makes[j].t), "the text kept with a MAKE is not its own"))
  \cup If(Len(out.find) # Len(m.finds), "a FIND is read that is not there, or none though there is one")
  \cup (IF Len(out.find) # Len(m.finds) \/ m.finds = <<>> THEN {}
        ELSE PatternsFaults(FirstOf(m.finds[1]), out.find[1].ps)
             \cup If(Range(out.find[1].hs) # AllHandles(m.finds[1]), "the handles of the FIND are not those written")
             \cup If(~SameText(ft[1], out.find[1].t), "the text kept with the FIND is not its own"))
  \cup If(Len(out.rep) # m.reps, "a REPORT is read that is not there, or none though there is one")
  \cup (IF Len(out.rep) # m.reps \/ m.reps = 0 THEN {}
        ELSE If(~SameText(rt[1], out.rep[1].t) \/ ~SameText(rt[1], out.rep[1].x), "the text kept with the REPORT is not its own"))
=============================================================================

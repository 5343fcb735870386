------------------------------ MODULE Catalog ------------------------------
(***************************************************************************)
(* The databases in a folder: creating, opening, deleting, listing, and    *)
(* queries on one of them.  A name is a sequence of character codes.       *)
(* cat is a set of [n |-> name, f |-> the files it has].                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Files == {"db", "idx", "num"}
Slash == 47
Dot == 46
ValidName(nm) ==     \* denotes one folder directly inside the folder
  /\ nm # <<>> /\ nm # <<Dot>> /\ nm # <<Dot, Dot>>
  /\ Range(nm) \cap {0, Slash} = {}
NamesIn(cat) == {x.n : x \in cat}
Taken(cat, nm) == nm \in NamesIn(cat)
Whole(cat, nm) == [n |-> nm, f |-> Files] \in cat

CanCreate(cat, nm) == ValidName(nm) /\ ~Taken(cat, nm)
CanOpen(cat, nm) == Whole(cat, nm)
CanDelete(cat, nm) == Taken(cat, nm)
Created(cat, nm) == cat \cup {[n |-> nm, f |-> Files]}
Deleted(cat, nm) == {x \in cat : x.n # nm}
Dropped(cat, nm, f) == {IF x.n = nm THEN [x EXCEPT !.f = @ \ {f}] ELSE x : x \in cat}

RECURSIVE Less(_, _)
Less(a, b) ==        \* alphabetical order
  IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
  ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Listing(cat) == SetToSortSeq(NamesIn(cat), Less)

(* choosing by letter: each line is a letter; the first that stands next   *)
(* to a database that can be opened is taken.  Without databases, and when *)
(* a new one is to be made, the first name that can be created is.         *)
Hidden == {<<116, 101, 115, 116, 115>>, <<95, 95, 112, 121, 99, 97, 99, 104, 101, 95, 95>>}
Shown(cat) == LET l == SelectSeq(Listing(cat), LAMBDA nm : nm \notin Hidden) IN SubSeq(l, 1, IF Len(l) < 26 THEN Len(l) ELSE 26)
Nobody == <<0>>      \* what is no name
FirstOf(lines, P(_)) == LET js == {j \in 1..Len(lines) : P(lines[j])} IN
  IF js = {} THEN Nobody ELSE lines[CHOOSE j \in js : \A k \in js : j <= k]
AskedFor(cat, lines) == FirstOf(lines, LAMBDA nm : CanCreate(cat, nm))
LetterOf(cat, line) == IF Len(line) = 1 /\ line[1] \in 65..(64 + Len(Shown(cat))) THEN Shown(cat)[line[1] - 64] ELSE Nobody
Chosen(cat, lines) ==
  IF Shown(cat) = <<>> THEN AskedFor(cat, lines)
  ELSE LET x == FirstOf(lines, LAMBDA l : LetterOf(cat, l) # Nobody /\ CanOpen(cat, LetterOf(cat, l))) IN
       IF x = Nobody THEN Nobody ELSE LetterOf(cat, x)
=============================================================================

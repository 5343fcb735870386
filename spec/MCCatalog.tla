------------------------------ MODULE MCCatalog ------------------------------
(***************************************************************************)
(* The folder of databases as a file system: a path is a sequence of       *)
(* folders, found by following a name from the folder of databases, "." and*)
(* ".." included.  Creating, opening and deleting are what Catalog.tla says;*)
(* the properties are about what is on the disk.                           *)
(*                                                                         *)
(* Names    names that are tried, sequences of character codes             *)
(* Guard    names that are no name of one folder are refused               *)
(* Deletes  "exact" the folder of that name, or "prefix" those whose name  *)
(*          begins with it (as with a pattern that is too wide)            *)
(***************************************************************************)
EXTENDS Catalog, TLC
CONSTANTS Names, Guard, Deletes, MaxSteps

VARIABLES cat,      \* the catalog, as Catalog.tla sees it
          disk,     \* set of [d |-> folder, f |-> file, v |-> what it holds];
                    \* the folder itself is the file "." in it
          last, n
vars == <<cat, disk, last, n>>

a == 97
b == 98
All3 == UNION {[1..k -> {a, b, Dot, Slash}] : k \in 0..2} \cup {<<Dot, Dot, Slash>>, <<a, Slash, b>>, <<Dot, Dot, a>>, <<a, a, b>>}
Few == {<<a>>, <<a, b>>, <<b>>, <<Dot, Dot>>, <<a, Slash, b>>, <<>>}
Root == <<"top", "dbms">>

(* the folder a name leads to                                              *)
RECURSIVE Split(_, _)
Split(nm, part) ==
  IF nm = <<>> THEN <<part>>
  ELSE IF Head(nm) = Slash THEN <<part>> \o Split(Tail(nm), <<>>)
  ELSE Split(Tail(nm), Append(part, Head(nm)))
RECURSIVE Follow(_, _)
Follow(dir, parts) ==
  IF parts = <<>> THEN dir
  ELSE LET p == Head(parts) IN
       Follow(IF p = <<>> \/ p = <<Dot>> THEN dir
              ELSE IF p = <<Dot, Dot>> THEN IF dir = <<>> THEN dir ELSE Front(dir)
              ELSE Append(dir, p), Tail(parts))
FolderOf(nm) == IF nm # <<>> /\ Head(nm) = Slash THEN Follow(<<>>, Split(nm, <<>>)) ELSE Follow(Root, Split(nm, <<>>))
At(dsk, dir) == {x \in dsk : x.d = dir}
Under(dsk, dir) == {x \in dsk : Len(x.d) >= Len(dir) /\ SubSeq(x.d, 1, Len(dir)) = dir}
Prefix(p, q) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p

Entry(dir, f) == [d |-> dir, f |-> f, v |-> 0]
Elsewhere == {Entry(<<"top">>, "keep"), Entry(<<"top", "other">>, "keep")}
             \cup {Entry(x, ".") : x \in {<<>>, <<"top">>, <<"top", "other">>, Root}}
There(dir) == Entry(dir, ".") \in disk
Init == cat = {} /\ disk = Elsewhere /\ last = [op |-> "none"] /\ n = 0
Do(op, nm, res) == last' = [op |-> op, nm |-> nm, res |-> res, pre |-> disk, was |-> cat] /\ n' = n + 1

New(nm) ==
  /\ n < MaxSteps
  /\ IF (Guard => ValidName(nm)) /\ ~There(FolderOf(nm))
     THEN /\ disk' = disk \cup {Entry(FolderOf(nm), x) : x \in Files \cup {"."}}
          /\ cat' = Created(cat, nm) /\ Do("new", nm, "ok")
     ELSE Do("new", nm, "err") /\ UNCHANGED <<cat, disk>>
Gone(nm) == IF Deletes = "exact" THEN {nm} ELSE {x.n : x \in {y \in cat : Prefix(nm, y.n)}}
Delete(nm) ==
  /\ n < MaxSteps
  /\ IF (Guard => ValidName(nm)) /\ There(FolderOf(nm))
     THEN /\ disk' = disk \ UNION {Under(disk, FolderOf(x)) : x \in Gone(nm) \cup {nm}}
          /\ cat' = Deleted(cat, nm) /\ Do("del", nm, "ok")
     ELSE Do("del", nm, "err") /\ UNCHANGED <<cat, disk>>
Query(nm) ==        \* a MAKE: all three files of the database change
  /\ n < MaxSteps
  /\ IF CanOpen(cat, nm)
     THEN /\ disk' = {IF x.d = FolderOf(nm) /\ x.f \in Files THEN [x EXCEPT !.v = @ + 1] ELSE x : x \in disk}
          /\ Do("q", nm, "ok") /\ UNCHANGED cat
     ELSE Do("q", nm, "err") /\ UNCHANGED <<cat, disk>>
Drop(nm, f) ==      \* the environment removes a file
  /\ n < MaxSteps /\ Taken(cat, nm)
  /\ disk' = {x \in disk : ~(x.d = FolderOf(nm) /\ x.f = f)}
  /\ cat' = Dropped(cat, nm, f) /\ Do("drop", nm, "ok")
Next == \/ \E nm \in Names : New(nm) \/ Delete(nm) \/ Query(nm)
        \/ \E nm \in Names, f \in Files : Drop(nm, f)
Spec == Init /\ [][Next]_vars

Changed(x, y) == {z.d : z \in (x \ y) \cup (y \ x)}
C16 ==
  /\ Elsewhere \subseteq disk
  /\ last.op # "none" =>
       Changed(last.pre, disk) \subseteq (IF last.res = "ok" THEN {Append(Root, last.nm)} ELSE {})
  /\ last.op = "new" => (last.res = "ok") = CanCreate(last.was, last.nm)
  /\ last.op = "del" => (last.res = "ok") = CanDelete(last.was, last.nm)
  /\ \A x \in cat : {z.f : z \in At(disk, Append(Root, x.n))} = x.f \cup {"."}
  /\ Range(Listing(cat)) = {nm \in Names : nm # <<>> /\ There(Append(Root, nm))}
C17 == last.op = "new" /\ last.res = "ok" => \A z \in At(disk, FolderOf(last.nm)) : z.v = 0
=============================================================================

------------------------------ MODULE MCAdmin ------------------------------
(***************************************************************************)
(* The folder of one database, step by step: sessions create, delete, open *)
(* it and MAKE in it, and are killed between any two steps.                *)
(* A folder has a number of its own (ino), which is new when it is made    *)
(* again; each file knows which operation created it and what was stored.  *)
(* Catalog: creating and deleting are locked; Verify: a session that       *)
(* waited for the lock of a folder looks whether it is still that folder;  *)
(* Whole: a file appears with its content, at once.                        *)
(***************************************************************************)
EXTENDS Admin, TLC
CONSTANTS Sessions, Ops, MaxOps, MaxKills, Catalog, Verify, Whole
VARIABLES ino, next, f, lockD, lockI, run, done, clock, kills, start
vars == <<ino, next, f, lockD, lockI, run, done, clock, kills, start>>

Alike == Permutations(Sessions)
Names == {"db", "idx", "num"}
None == [by |-> (0 - 1), mk |-> <<>>, torn |-> FALSE]
File(by, mk) == [by |-> by, mk |-> mk, torn |-> FALSE]
NoFiles == [x \in Names |-> None]
Idle == [op |-> "", id |-> 0, pc |-> "", s |-> 0, i |-> 0, todo |-> <<>>, by |-> 0, mk |-> <<>>]
Orders(S) == {q \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : q[a] = q[b] => a = b}
There == {x \in Names : f[x] # None}
OldMk == <<99>>          \* what was stored before

Init == /\ start \in {Gone, Is(0, OldMk)}
        /\ ino = (IF start = Gone THEN 0 ELSE 1) /\ next = 2
        /\ f = (IF start = Gone THEN NoFiles ELSE [x \in Names |-> File(0, OldMk)])
        /\ lockD = 0 /\ lockI = [x \in 1..(MaxOps + 2) |-> 0]
        /\ run = [k \in Sessions |-> Idle] /\ done = {} /\ clock = 1 /\ kills = 0

Started == Cardinality(done) + Cardinality({k \in Sessions : run[k] # Idle})
Free(k) == /\ lockD' = (IF lockD = k THEN 0 ELSE lockD)
           /\ lockI' = [x \in DOMAIN lockI |-> IF lockI[x] = k THEN 0 ELSE lockI[x]]
End(k, res, mode) ==
  /\ done' = done \cup {[op |-> run[k].op, id |-> run[k].id, mode |-> mode, res |-> res, s |-> run[k].s, e |-> clock]}
  /\ run' = [run EXCEPT ![k] = Idle] /\ clock' = clock + 1 /\ Free(k)
Go(k, r) == run' = [run EXCEPT ![k] = r] /\ UNCHANGED <<done, clock>>
Disk == <<ino, next, f>>
Locks == <<lockD, lockI>>

Start(k, op) ==
  /\ run[k] = Idle /\ Started < MaxOps
  /\ run' = [run EXCEPT ![k] = [Idle EXCEPT !.op = op, !.id = Started + 1, !.pc = "begin", !.s = clock]]
  /\ clock' = clock + 1
  /\ UNCHANGED <<done, kills, start>> /\ UNCHANGED Disk /\ UNCHANGED Locks
To(k, pc) == Go(k, [run[k] EXCEPT !.pc = pc])
Answer(k, res) == End(k, res, "n") /\ UNCHANGED Disk

New(k) ==
  LET r == run[k] IN
  CASE r.pc = "begin" -> /\ Catalog => lockD = 0
                         /\ lockD' = (IF Catalog THEN k ELSE lockD) /\ To(k, "look") /\ UNCHANGED lockI /\ UNCHANGED Disk
    [] r.pc = "look"  -> IF There # {} THEN Answer(k, "err")
                         ELSE Go(k, [r EXCEPT !.pc = "dir", !.todo = <<"db", "idx", "num">>]) /\ UNCHANGED Locks /\ UNCHANGED Disk
    [] r.pc = "dir"   -> /\ ino' = (IF ino = 0 THEN next ELSE ino) /\ next' = (IF ino = 0 THEN next + 1 ELSE next)
                         /\ To(k, "file") /\ UNCHANGED f /\ UNCHANGED Locks
    [] r.pc = "file"  -> LET x == Head(r.todo) IN
                         IF ino = 0 \/ f[x] # None THEN Answer(k, "err")
                         ELSE IF Whole
                         THEN /\ f' = [f EXCEPT ![x] = File(r.id, <<>>)]
                              /\ (IF Tail(r.todo) = <<>> THEN To(k, "end") ELSE Go(k, [r EXCEPT !.pc = "dir", !.todo = Tail(@)]))
                              /\ UNCHANGED <<ino, next>> /\ UNCHANGED Locks
                         ELSE /\ f' = [f EXCEPT ![x] = [File(r.id, <<>>) EXCEPT !.torn = TRUE]]
                              /\ To(k, "fill") /\ UNCHANGED <<ino, next>> /\ UNCHANGED Locks
    [] r.pc = "fill"  -> IF ino = 0 THEN Answer(k, "err")
                         ELSE /\ f' = [f EXCEPT ![Head(r.todo)] = File(r.id, <<>>)]
                              /\ (IF Tail(r.todo) = <<>> THEN To(k, "end") ELSE Go(k, [r EXCEPT !.pc = "dir", !.todo = Tail(@)]))
                              /\ UNCHANGED <<ino, next>> /\ UNCHANGED Locks
    [] r.pc = "end"   -> Answer(k, "ok")

(* the lock of a folder: opened (i), waited for, looked at again           *)
OpenDir(k, then) == Go(k, [run[k] EXCEPT !.i = ino, !.pc = then]) /\ UNCHANGED Locks /\ UNCHANGED Disk
LockDir(k, again, then) ==
  LET i == run[k].i IN
  /\ lockI[i] = 0
  /\ IF ~Verify \/ i = ino THEN lockI' = [lockI EXCEPT ![i] = k] /\ To(k, then) /\ UNCHANGED lockD
     ELSE To(k, again) /\ UNCHANGED Locks
  /\ UNCHANGED Disk

Del(k) ==
  LET r == run[k] IN
  CASE r.pc = "begin" -> IF ino = 0 THEN Answer(k, "err")
                         ELSE To(k, IF Catalog THEN "lock" ELSE "list") /\ UNCHANGED Locks /\ UNCHANGED Disk
    [] r.pc = "lock"  -> lockD = 0 /\ lockD' = k /\ To(k, "open") /\ UNCHANGED lockI /\ UNCHANGED Disk
    [] r.pc = "open"  -> IF ino = 0 THEN Answer(k, "err") ELSE OpenDir(k, "wait")
    [] r.pc = "wait"  -> LockDir(k, "open", "list")
    [] r.pc = "list"  -> IF ino = 0 THEN Answer(k, "err")
                         ELSE \E q \in Orders(There) : Go(k, [r EXCEPT !.pc = "rm", !.todo = q]) /\ UNCHANGED Locks /\ UNCHANGED Disk
    [] r.pc = "rm"    -> IF r.todo = <<>> THEN To(k, "rmdir") /\ UNCHANGED Locks /\ UNCHANGED Disk
                         ELSE IF f[Head(r.todo)] = None THEN Answer(k, "err")
                         ELSE /\ f' = [f EXCEPT ![Head(r.todo)] = None] /\ Go(k, [r EXCEPT !.todo = Tail(@)])
                              /\ UNCHANGED <<ino, next>> /\ UNCHANGED Locks
    [] r.pc = "rmdir" -> IF ino = 0 \/ There # {} THEN Answer(k, "err")
                         ELSE End(k, "ok", "n") /\ ino' = 0 /\ UNCHANGED <<next, f>>

Make(k) ==
  LET r == run[k] IN
  CASE r.pc = "begin" -> IF There # Names THEN Answer(k, "err") ELSE To(k, "open") /\ UNCHANGED Locks /\ UNCHANGED Disk
    [] r.pc = "open"  -> IF ino = 0 THEN Answer(k, "err") ELSE OpenDir(k, "wait")
    [] r.pc = "wait"  -> LockDir(k, "open", "read")
    [] r.pc = "read"  -> IF There # Names THEN Answer(k, "err")
                         ELSE /\ Go(k, [r EXCEPT !.pc = "write", !.todo = <<"num", "idx", "db">>, !.by = f["db"].by, !.mk = Append(f["db"].mk, r.id)])
                              /\ UNCHANGED Locks /\ UNCHANGED Disk
    [] r.pc = "write" -> IF r.todo = <<>> THEN Answer(k, "ok")
                         ELSE IF ino = 0 THEN Answer(k, "err")
                         ELSE /\ f' = [f EXCEPT ![Head(r.todo)] = File(r.by, r.mk)] /\ Go(k, [r EXCEPT !.todo = Tail(@)])
                              /\ UNCHANGED <<ino, next>> /\ UNCHANGED Locks
Look(k) == run[k].pc = "begin" /\ Answer(k, IF There = Names THEN "ok" ELSE "err")

Step(k) == /\ run[k] # Idle
           /\ (CASE run[k].op = "new" -> New(k) [] run[k].op = "del" -> Del(k) [] run[k].op = "make" -> Make(k) [] OTHER -> Look(k))
           /\ UNCHANGED <<kills, start>>
Kill(k) == /\ run[k] # Idle /\ kills < MaxKills
           /\ kills' = kills + 1 /\ End(k, "died", "kill") /\ UNCHANGED start /\ UNCHANGED Disk
Next == \E k \in Sessions : (\E op \in Ops : Start(k, op)) \/ Step(k) \/ Kill(k)
Spec == Init /\ [][Next]_vars

(*********************** the properties ************************************)
Still == \A k \in Sessions : run[k] = Idle
Dead(op) == \E o \in done : o.op = op /\ o.mode = "kill"
(* what can be opened is whole, at any moment                              *)
C25 == There = Names =>
         /\ \A x \in Names : ~f[x].torn
         /\ \A x \in Names : f[x].by = f["db"].by
         /\ (~(\E o \in done : o.op = "make" /\ o.mode = "kill") /\ Still => \A x \in Names : f[x].mk = f["db"].mk)
Now == IF ino = 0 THEN Gone ELSE IF There # Names THEN Part ELSE Is(f["db"].by, f["db"].mk)
C26 == Still => Now \in Results(start, done)
(* nobody waits for ever                                                   *)
NoWait == (\A k \in Sessions : run[k] # Idle => ~ENABLED Step(k)) => Still
=============================================================================

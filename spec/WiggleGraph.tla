---------------------------- MODULE WiggleGraph ----------------------------
(***************************************************************************)
(* One database and the queries that run on it, step by step: a MAKE       *)
(* reads the number file, then writes one file after the other; a FIND     *)
(* reads the labels, then the names.  Between any two steps, and within a  *)
(* write, the process can be killed or the write can fail, and the other   *)
(* sessions take theirs.  The properties are those of Graph.tla, the same  *)
(* that Trace.tla decides on what the real code was seen to do.            *)
(*                                                                         *)
(* Order    in which the files are written: "safe" as the code does it,    *)
(*          "old" as it did before it was repaired                         *)
(* Atomic   a file is replaced as a whole                                  *)
(* Cached   a process keeps the number it read, instead of reading it again*)
(* Lock     "whole": a MAKE has the database for itself from its first to  *)
(*          its last step, as the code does it; "late": it reads the       *)
(*          number before that; "none": there is no lock                   *)
(***************************************************************************)
EXTENDS Effect, TLC

CONSTANTS Makes, Finds, MaxQueries, Order, Atomic, MaxFaults, Cached, Sessions, Lock

VARIABLES db,      \* the stored state
          run,     \* the query that each session runs, or Idle
          last,    \* the query that ended last, with the state before it
          issued, intr, n, faults,
          mem,     \* what each process remembers of the number file, or -1
          done     \* the MAKEs that ended well, as a bag
vars == <<db, run, last, issued, intr, n, faults, mem, done>>

Larger(a, b) == IF a > b THEN a ELSE b
Idle == [op |-> "idle"]
Steps == IF Order = "safe" THEN <<"num", "inr", "il", "ir", "db">>
         ELSE <<"db", "inr", "il", "ir", "num">>

Apply(s, makes, clk) == WriteAll(s, Plan(makes, s.ctr, clk), Steps)
Running == {k \in Sessions : run[k] # Idle}
Making == {k \in Sessions : run[k].op = "make"}
Holders2 == {k \in Making : run[k].has}
Room == n + Cardinality(Running) < MaxQueries

(*********************** transitions ***************************************)
NoLast == [op |-> "none"]
Init == /\ db = Empty /\ run = [k \in Sessions |-> Idle] /\ last = NoLast
        /\ issued = -1 /\ intr = FALSE /\ n = 0 /\ faults = 0
        /\ mem = [k \in Sessions |-> -1] /\ done = [mk \in Makes |-> 0]

StartMake(mk, k) ==
  /\ run[k] = Idle /\ Room
  /\ Lock = "whole" => Holders2 = {}
  /\ LET from == IF Cached /\ mem[k] >= 0 THEN mem[k] ELSE db.ctr
         plan == Plan(mk, from, n) IN
     /\ run' = [run EXCEPT ![k] = [op |-> "make", mk |-> mk, pre |-> db, plan |-> plan, left |-> Steps,
                                   has |-> Lock = "whole", clk |-> n]]
     /\ mem' = IF Cached THEN [mem EXCEPT ![k] = plan.next] ELSE mem
  /\ last' = NoLast
  /\ UNCHANGED <<db, issued, intr, n, faults, done>>

End(k, mode, res) ==
  /\ last' = [op |-> "make", mk |-> run[k].mk, pre |-> run[k].pre, mode |-> mode, res |-> res, clk |-> run[k].clk,
              issued |-> issued, intr |-> intr]
  /\ run' = [run EXCEPT ![k] = Idle] /\ n' = n + 1

Step(k) ==       \* a number that is in use already makes the writing of the nodes fail
  /\ k \in Making /\ run[k].left # <<>>
  /\ Lock = "late" => Holders2 \subseteq {k}
  /\ IF Head(run[k].left) = "db" /\ \E j \in 1..Len(run[k].plan.nodes) : run[k].plan.nodes[j].wn \in NodeWns(db)
     THEN /\ End(k, "n", "err") /\ UNCHANGED <<db, issued, intr, faults, done>>
     ELSE /\ db' = Write(db, run[k].plan, Head(run[k].left))
          /\ run' = [run EXCEPT ![k] = [@ EXCEPT !.left = Tail(@), !.has = Lock # "none"]]
          /\ UNCHANGED <<last, issued, intr, n, faults, done>>
Finish(k) ==
  /\ k \in Making /\ run[k].left = <<>>
  /\ End(k, "n", "ok") /\ issued' = Larger(issued, MaxWn(db)) /\ UNCHANGED <<db, intr, faults>>
  /\ done' = [done EXCEPT ![run[k].mk] = @ + 1]

Broken == [db EXCEPT !.ok = FALSE]
Interrupt(k, mode) ==
  /\ k \in Making /\ faults < MaxFaults
  /\ \/ UNCHANGED db
     \/ ~Atomic /\ run[k].left # <<>> /\ db' = Broken    \* within a write
  /\ End(k, mode, "err") /\ intr' = TRUE /\ faults' = faults + 1
  /\ issued' = Larger(issued, MaxWn(db'))
  /\ done' = IF run[k].left = <<>> THEN [done EXCEPT ![run[k].mk] = @ + 1] ELSE done
Kill(k) == Interrupt(k, "kill")
Fail(k) == Interrupt(k, "fail")

StartFind(pat, k) ==
  /\ run[k] = Idle /\ Room
  /\ run' = [run EXCEPT ![k] = [op |-> "find", pat |-> pat, pre |-> db]]
  /\ UNCHANGED <<db, last, issued, intr, n, faults, done>>
EndFind(k) ==
  /\ run[k].op = "find"
  /\ last' = [op |-> "find", pat |-> run[k].pat, pre |-> run[k].pre, intr |-> intr,
              none |-> NoResults([db EXCEPT !.il = run[k].pre.il], run[k].pat)]
  /\ n' = n + 1 /\ run' = [run EXCEPT ![k] = Idle]
  /\ UNCHANGED <<db, issued, intr, faults, done>>
Reject(k) ==
  /\ run[k] = Idle /\ Room
  /\ last' = [op |-> "reject", pre |-> db]
  /\ n' = n + 1
  /\ UNCHANGED <<db, run, issued, intr, faults, done>>

Next == \E k \in Sessions :
        \/ \E mk \in Makes : StartMake(mk, k)
        \/ (Step(k) \/ Finish(k) \/ Kill(k) \/ Fail(k) \/ (\E pat \in Finds : StartFind(pat, k)) \/ EndFind(k) \/ Reject(k))
           /\ UNCHANGED mem
Spec == Init /\ [][Next]_vars

(*********************** the properties ************************************)
Made == last.op = "make" /\ last.mode = "n" /\ last.res = "ok"
Stopped == last.op = "make" /\ last.mode # "n"
C01 == Made => C01Made(last.pre, last.mk, db) = {}
C02 == Made => C02Made(last.pre, last.mk, db) = {}
C03 == /\ (db.ok => C03State(db) = {})
       /\ (last.op = "make" /\ db.ok => C03Step(last.pre, db, last.issued) = {})
       /\ (Made /\ ~intr => C03Counter(db) = {})
C04 == last.op # "none" /\ db.ok =>
         /\ C04Kept(last.pre, db) = {}
         /\ (last.op = "find" => C04ReadOnly(last.pre, db) = {})
C05 == Running = {} /\ db.ok => IF intr THEN C05Super(db) = {} ELSE C05Exact(db) = {}
C06 == last.op = "reject" => C06Rejected(last.pre, db) = {}
C07 == Made => C07Made(last.pre, last.mk, db) = {}
C08 == Made => C08Made(last.pre, last.mk, db) = {}
C09 == last.op = "find" => /\ C09Sound(db, last.pat, last.none) = {}
                           /\ intr \/ C09Complete(db, last.pat, last.none) = {}
Accepted == last.op = "make" => last.mode # "n" \/ last.res = "ok"
(* while others run: a FIND is right about the state it began with, and    *)
(* about the state in which the MAKEs that still run will leave            *)
Rest(s) == IF Making = {} THEN s ELSE LET k == CHOOSE x \in Making : TRUE IN WriteAll(s, run[k].plan, run[k].left)
C23 == /\ db.ok
       /\ C05Super(db) = {} /\ C03State(db) = {}
       /\ (last.op = "find" => /\ C09Sound(last.pre, last.pat, last.none) = {}
                               /\ intr \/ C09Complete(Rest(db), last.pat, last.none) = {})
(* the graph is what the MAKEs that ended well make, one after the other   *)
RECURSIVE Serial(_, _, _)
Serial(s, bag, goal) ==
  IF \A mk \in Makes : bag[mk] = 0 THEN Canon(s) = goal
  ELSE \E mk \in {x \in Makes : bag[x] > 0} : Serial(Apply(s, mk, 0), [bag EXCEPT ![mk] = @ - 1], goal)
C24 == Running = {} /\ db.ok =>
         /\ (~intr => C05Exact(db) = {} /\ C03Counter(db) = {})
         /\ C03State(db) = {}
         /\ Serial(Empty, done, Canon(db))
C14 == /\ db.ok
       /\ (Stopped => C04Kept(last.pre, db) \cup AllOrNone(last.pre, last.mk, db) = {})
       /\ Accepted                                                     \* later queries succeed
C19 == last.op = "make" => C19Made(last.pre, db, last.clk, last.clk) \cup C19Kept(last.pre, db) = {}

(* one query with several MAKE, or several queries: the same graph         *)
SameAs(a, b) == Canon(a) = Canon(b) /\ CanonIndex(a) = CanonIndex(b)
C20 == Running = {} /\ db.ok /\ n <= 2 =>
         \A mk \in Makes, mk2 \in Makes :
            SameAs(Apply(Apply(db, mk, 0), mk2, 0), Apply(db, mk \o mk2, 0))
=============================================================================

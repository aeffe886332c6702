----------------------------- MODULE LimiterImpl -----------------------------
(***************************************************************************)
(* How the limiter keeps limits under concurrency: an increment takes one  *)
(* lock per key value (in the order of the keys), reads the counters of    *)
(* each limit one by one, adds, and gives the locks back.  Decrements take *)
(* no locks.  Checked: the limits hold at every instant, the locks exclude *)
(* each other and everybody finishes.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, UseLocks

A == "a" :> 1
B == "b" :> 1
AB == ("a" :> 1) @@ ("b" :> 1)
CKV == {A, B, AB}
Order == <<"a", "b">>

VARIABLES ctr, lock, pc, job, held, todo, reads, sum, lims, out
vars == <<ctr, lock, pc, job, held, todo, reads, sum, lims, out>>

(* the limits: sets of grouping keys with a number *)
LimSets == {{<<{"a"}, 2>>}, {<<{"a"}, 2>>, <<{"b"}, 2>>}, {<<{"a"}, 3>>, <<{"a", "b"}, 1>>}}

Applying(kv) == {x \in lims : x[1] \subseteq DOMAIN kv}
Group(K, kv) == {c \in CKV : K \subseteq DOMAIN c /\ \A k \in K : c[k] = kv[k]}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN ctr[x] + Sum(S \ {x})
Total(K, kv) == Sum(Group(K, kv))

Init ==
  /\ ctr = [c \in CKV |-> 0]
  /\ lock = [k \in {"a", "b"} |-> ""]
  /\ lims \in LimSets
  /\ pc = [p \in Procs |-> "start"]
  /\ job \in [Procs -> {[kv |-> c, n |-> n] : c \in CKV, n \in {1, 2, -1}}]
  /\ held = [p \in Procs |-> << >>]
  /\ todo = [p \in Procs |-> {}] /\ reads = [p \in Procs |-> {}] /\ sum = [p \in Procs |-> 0]
  /\ out = [p \in Procs |-> "none"]

Keys(p) == SelectSeq(Order, LAMBDA k : k \in DOMAIN job[p].kv)

Start(p) ==
  /\ pc[p] = "start"
  /\ IF job[p].n < 0
     THEN /\ ctr' = [ctr EXCEPT ![job[p].kv] = IF @ + job[p].n > 0 THEN @ + job[p].n ELSE 0]
          /\ pc' = [pc EXCEPT ![p] = "done"] /\ out' = [out EXCEPT ![p] = "ok"]
          /\ UNCHANGED todo
     ELSE /\ pc' = [pc EXCEPT ![p] = IF UseLocks THEN "lock" ELSE "check"]
          /\ todo' = [todo EXCEPT ![p] = Applying(job[p].kv)]
          /\ UNCHANGED <<ctr, out>>
  /\ UNCHANGED <<lock, job, held, reads, sum, lims>>

Lock(p) ==
  /\ pc[p] = "lock"
  /\ LET i == Len(held[p]) + 1 IN
     IF i > Len(Keys(p)) THEN pc' = [pc EXCEPT ![p] = "check"] /\ UNCHANGED <<lock, held>>
     ELSE /\ lock[Keys(p)[i]] = ""
          /\ lock' = [lock EXCEPT ![Keys(p)[i]] = p]
          /\ held' = [held EXCEPT ![p] = Append(@, Keys(p)[i])]
          /\ UNCHANGED pc
  /\ UNCHANGED <<ctr, job, todo, reads, sum, lims, out>>

Check(p) ==
  /\ pc[p] = "check"
  /\ IF todo[p] = {} THEN pc' = [pc EXCEPT ![p] = "add"] /\ UNCHANGED <<reads, sum>>
     ELSE \E x \in todo[p] :
            /\ reads' = [reads EXCEPT ![p] = {<<x, c>> : c \in Group(x[1], job[p].kv)}]
            /\ sum' = [sum EXCEPT ![p] = 0]
            /\ pc' = [pc EXCEPT ![p] = "read"]
  /\ UNCHANGED <<ctr, lock, job, held, todo, lims, out>>

Read(p) ==
  /\ pc[p] = "read"
  /\ \E xc \in reads[p] :
       LET s == sum[p] + ctr[xc[2]] rest == reads[p] \ {xc} IN
       /\ reads' = [reads EXCEPT ![p] = rest]
       /\ sum' = [sum EXCEPT ![p] = s]
       /\ IF s + job[p].n > xc[1][2]
          THEN pc' = [pc EXCEPT ![p] = "free"] /\ out' = [out EXCEPT ![p] = "refused"] /\ UNCHANGED todo
          ELSE IF rest = {}
               THEN todo' = [todo EXCEPT ![p] = @ \ {xc[1]}] /\ pc' = [pc EXCEPT ![p] = "check"] /\ UNCHANGED out
               ELSE UNCHANGED <<pc, out, todo>>
  /\ UNCHANGED <<ctr, lock, job, held, lims>>

Add(p) ==
  /\ pc[p] = "add"
  /\ ctr' = [ctr EXCEPT ![job[p].kv] = @ + job[p].n]
  /\ out' = [out EXCEPT ![p] = "ok"] /\ pc' = [pc EXCEPT ![p] = "free"]
  /\ UNCHANGED <<lock, job, held, todo, reads, sum, lims>>

Free(p) ==
  /\ pc[p] = "free"
  /\ IF held[p] = << >> THEN pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<lock, held>>
     ELSE /\ lock' = [lock EXCEPT ![held[p][1]] = ""]
          /\ held' = [held EXCEPT ![p] = Tail(@)]
          /\ UNCHANGED pc
  /\ UNCHANGED <<ctr, job, todo, reads, sum, lims, out>>

Finished == \A p \in Procs : pc[p] = "done"
Step(p) == Start(p) \/ Lock(p) \/ Check(p) \/ Read(p) \/ Add(p) \/ Free(p)
Next == (\E p \in Procs : Step(p)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

LimitsHold == \A x \in lims, c \in CKV : (x[1] \subseteq DOMAIN c) => Total(x[1], c) <= x[2]
Mutex == \A k \in {"a", "b"} : Cardinality({p \in Procs : \E i \in 1..Len(held[p]) : held[p][i] = k}) <= 1
Terminates == <>Finished
=============================================================================

----------------------------- MODULE LockerTrace -----------------------------
(* Checks histories recorded from the real lock service against Locker.     *)
EXTENDS Locker, Sequences, TLC, TLCExt, Json, IOUtils

Hs == ndJsonDeserialize(IOEnv.TRACE)
KeysOf(i) == {Hs[i].cfg.keys[j] : j \in 1..Len(Hs[i].cfg.keys)}

VARIABLES tid, l, pend, lin,
          beatHi,   \* [Keys -> latest instant at which the last beat can have happened]
          freeHi    \* [Keys -> latest instant at which the lock can have become free]
vars == <<owner, lid, ttl, beat, free, used, ids, tid, l, pend, lin, beatHi, freeHi>>

Ev == Hs[tid].ev
Ops == Hs[tid].ops
More == l <= Len(Ev)

Init ==
  /\ tid \in 1..Len(Hs)
  /\ l = 1 /\ pend = {} /\ lin = {}
  /\ LInit(KeysOf(tid))
  /\ beatHi = [k \in KeysOf(tid) |-> 0] /\ freeHi = [k \in KeysOf(tid) |-> 0]
  /\ TLCSet(tid, 0)

Reach == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)

Inv ==
  /\ More /\ Ev[l].e = "inv"
  /\ pend' = pend \cup {Ev[l].o} /\ l' = l + 1
  /\ UNCHANGED <<lvars, tid, lin, beatHi, freeHi>>

Res ==
  /\ More /\ Ev[l].e = "res" /\ Ev[l].o \in lin
  /\ lin' = lin \ {Ev[l].o} /\ l' = l + 1
  /\ UNCHANGED <<lvars, tid, pend, beatHi, freeHi>>

TTL(op) == IF op.to = 0 THEN Hs[tid].cfg.def ELSE op.to

ListOk(op) ==
  LET rows == op.r.rows
      Row(k) == {i \in 1..Len(rows) : rows[i].k = k}
      waiting(k) == {p \in pend : Ops[p].op = "obtain" /\ Ops[p].k = k}
  IN /\ \A i \in 1..Len(rows) : rows[i].k \in DOMAIN owner
     /\ \A k \in DOMAIN owner :
          /\ Cardinality(Row(k)) <= 1
          /\ owner[k] # NoSession => Row(k) # {}
          /\ \A i \in Row(k) :
               \* only a held lock is listed, with its holder, its time-out and the clients that wait
               /\ owner[k] = rows[i].s /\ lid[k] = rows[i].id
               /\ rows[i].to = ttl[k]
               /\ rows[i].n >= 1
               /\ rows[i].n <= 1 + Cardinality(waiting(k)) + Cardinality({p \in 1..Len(Ops) : Ops[p].op = "obtain" /\ Ops[p].k = k /\ Ops[p].r.st = "gone"})
               /\ rows[i].left <= ttl[k]
               /\ rows[i].left <= Max(0, beatHi[k] + ttl[k] - op.tinv) + 1000
               /\ rows[i].left >= beat[k] + ttl[k] - Ev[l].t - 1000

Apply(o) ==
  LET op == Ops[o] r == op.r IN
  CASE op.op = "obtain" /\ r.st = "ok"       -> Grant(op.k, r.s, r.id, TTL(op), op.tinv)
    [] op.op = "obtain" /\ r.st = "gone"     -> UNCHANGED lvars      \* the client went away
    [] op.op = "hb"  /\ r.st = "ok"          -> Beat(op.id, op.s, op.tinv)
    [] op.op = "hb"  /\ r.st = "conflict"    -> Refuse(op.id, op.s)
    [] op.op = "hb"  /\ r.st = "missing"     -> RefuseMissing(op.id)
    [] op.op = "rel" /\ r.st = "ok"          -> Release(op.id, op.s, op.tinv)
                                                   \/ RefuseMissing(op.id)   \* documented: deleted, or never existed
    [] op.op = "rel" /\ r.st = "conflict"    -> Refuse(op.id, op.s)
    [] op.op = "rel" /\ r.st = "missing"     -> RefuseMissing(op.id)
    [] op.op = "list" /\ r.st = "ok"         -> ListOk(op) /\ UNCHANGED lvars
    [] OTHER                                 -> FALSE

(* upper bounds: whatever an operation did, it did before it answered *)
Highs(op) ==
  /\ beatHi' = [k \in DOMAIN owner |-> IF owner'[k] # NoSession /\ (owner'[k] # owner[k] \/ beat'[k] # beat[k]) THEN op.tres ELSE beatHi[k]]
  /\ freeHi' = [k \in DOMAIN owner |-> IF owner'[k] = NoSession /\ owner[k] # NoSession THEN op.tres ELSE freeHi[k]]

(* a client that waits is served soon after the lock became free *)
Soon(o) ==
  LET op == Ops[o] IN
  (op.op = "obtain" /\ op.r.st = "ok") =>
     op.tres <= Max(op.tinv, freeHi[op.k]) + Hs[tid].cfg.slack

Need == More /\ Ev[l].e = "res" /\ Ev[l].o \notin lin

(* Operations that change nothing can be explained as soon as they are possible. *)
PureOk(o) ==
  LET op == Ops[o] r == op.r IN
  CASE op.op = "obtain" /\ r.st = "gone"                -> TRUE
    [] op.op \in {"hb", "rel"} /\ r.st = "conflict"     -> ~HeldBy(op.id, op.s)
    [] op.op \in {"hb", "rel"} /\ r.st = "missing"      -> UnknownId(op.id)
    [] op.op = "list" /\ r.st = "ok" /\ More            -> ListOk(op)
    [] OTHER                                            -> FALSE

Absorb ==
  LET S == {o \in pend : PureOk(o)} IN
  /\ S # {}
  /\ pend' = pend \ S /\ lin' = lin \cup S
  /\ UNCHANGED <<lvars, tid, l, beatHi, freeHi>>

NoPure == \A o \in pend : ~PureOk(o)

Lin(o) ==
  /\ Need /\ o \in pend
  /\ Soon(o)
  /\ Apply(o)
  /\ Highs(Ops[o])
  /\ pend' = pend \ {o} /\ lin' = lin \cup {o}
  /\ UNCHANGED <<tid, l>>

Timeout(k) ==
  /\ More /\ Ev[l].e \in {"res", "stuck"}
  /\ Expire(k, Ev[l].t)
  /\ freeHi' = [freeHi EXCEPT ![k] = beatHi[k] + ttl[k]]
  /\ UNCHANGED <<tid, l, pend, lin, beatHi>>

(* An operation that never answered.  A waiter may wait only while somebody   *)
(* else holds the lock (and did not expire); everything else must answer.     *)
Stuck ==
  /\ More /\ Ev[l].e = "stuck"
  /\ LET op == Ops[Ev[l].o] IN
       /\ op.op = "obtain"
       /\ owner[op.k] # NoSession
       /\ ~Expired(op.k, Ev[l].t)
  /\ l' = l + 1
  /\ UNCHANGED <<lvars, tid, pend, lin, beatHi, freeHi>>

Next == Absorb \/ (NoPure /\ (Inv \/ Res \/ (\E o \in pend : Lin(o)) \/ (\E k \in DOMAIN owner : Timeout(k)) \/ Stuck))

Spec == Init /\ [][Next]_vars

Track == Reach                     \* a constraint, always TRUE: remembers how far each history got
TypeOK == OneHolder

Rejected == {i \in 1..Len(Hs) : TLCGet(i) <= Len(Hs[i].ev)}
Verdict ==
  /\ PrintT(<<"CHECKED", Len(Hs), "REJECTED", Cardinality(Rejected)>>)
  /\ \A i \in Rejected : PrintT(<<"REJECT", Hs[i].name, "at", TLCGet(i), "of", Len(Hs[i].ev)>>)
=============================================================================

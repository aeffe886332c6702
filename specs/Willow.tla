------------------------------- MODULE Willow -------------------------------
(***************************************************************************)
(* The queue service.  A queue has channels, one for each set of key       *)
(* values that has items; a channel has items that wait, in order, and     *)
(* items that were handed to a consumer and run.  User defined rules of    *)
(* the limiter bound how many items wait and run.                          *)
(*                                                                         *)
(* An item is [d, up, ra, pos, to, rc, at]: content, updateable, retries   *)
(* it may use, where it is retried, time-out, retries used, the earliest   *)
(* instant at which it can have become available.  A running item is       *)
(* [it, lo, hi, gb]: lo and hi bound the instant of its last heartbeat, gb *)
(* says that it could not be delivered and is about to be given back.      *)
(***************************************************************************)
EXTENDS Query

VARIABLES qs,      \* [queue name -> most items it may hold, -1: no bound]
          ch,      \* [<<queue name, key values>> -> [wait: Seq(item), run: [id -> running item]]]
          rules, ovs  \* the user's rules and overrides, as in Limiter

wvars == <<qs, ch, rules, ovs>>
Chs == DOMAIN ch

Top(a, b) == IF a > b THEN a ELSE b

Items(c) == Len(ch[c].wait) + Cardinality(DOMAIN ch[c].run)

(****************************** the counters *******************************)
(* what the service keeps in the limiter for each channel *)
RunKey(c) == [k \in DOMAIN c[2] \cup {"_willow_queue_name", "_willow_running"} |->
                CASE k = "_willow_queue_name" -> "13:" \o c[1] [] k = "_willow_running" -> "13:true" [] OTHER -> c[2][k]]
EnqNames(c) == {<<k, "_willow_" \o k>> : k \in DOMAIN c[2]}
EnqKey(c) == [n \in {x[2] : x \in EnqNames(c)} \cup {"_willow_queue_name", "_willow_enqueued"} |->
                CASE n = "_willow_queue_name" -> "13:" \o c[1] [] n = "_willow_enqueued" -> "13:true"
                  [] OTHER -> c[2][(CHOOSE x \in EnqNames(c) : x[2] = n)[1]]]

Counters ==
  LET rs == {c \in Chs : ch[c].run # << >>}
      es == {c \in Chs : Items(c) > 0}
      key(x) == IF x[1] = "run" THEN RunKey(x[2]) ELSE EnqKey(x[2])
      xs == {<<"run", c>> : c \in rs} \cup {<<"enq", c>> : c \in es}
  IN [k \in {key(x) : x \in xs} |->
        LET x == CHOOSE y \in xs : key(y) = k IN IF x[1] = "run" THEN Cardinality(DOMAIN ch[x[2]].run) ELSE Items(x[2])]

Lim == INSTANCE Limiter WITH ctr <- Counters

Held(q) == LET cs == {c \in Chs : c[1] = q} IN Lim!SumOver([c \in cs |-> Items(c)], cs)

Room(V, c)   == (qs[c[1]] = -1 \/ Held(c[1]) + 1 <= qs[c[1]]) /\ (rules = << >> \/ Lim!Allowed(V, EnqKey(c), 1))
MayRun(V, c) == rules = << >> \/ Lim!Allowed(V, RunKey(c), 1)

(******************************** queues ***********************************)
CreateQueue(q, max) == q \notin DOMAIN qs /\ qs' = Lim!Put(qs, q, max) /\ UNCHANGED <<ch, rules, ovs>>
UpdateQueue(q, max) == q \in DOMAIN qs /\ qs' = [qs EXCEPT ![q] = max] /\ UNCHANGED <<ch, rules, ovs>>
DeleteQueue(q) ==
  /\ qs' = Lim!Drop(qs, {q})
  /\ ch' = Lim!Drop(ch, {c \in Chs : c[1] = q})
  /\ UNCHANGED <<rules, ovs>>
DeleteChannel(c) ==
  /\ c[1] \in DOMAIN qs
  /\ ch' = Lim!Drop(ch, {c})
  /\ UNCHANGED <<qs, rules, ovs>>

(********************************* items ***********************************)
Wait(c) == IF c \in Chs THEN ch[c].wait ELSE << >>
Run(c)  == IF c \in Chs THEN ch[c].run ELSE << >>
Keep(c, w, r) == IF w = << >> /\ r = << >> THEN Lim!Drop(ch, {c}) ELSE Lim!Put(ch, c, [wait |-> w, run |-> r])
Set(c, w, r) == ch' = Keep(c, w, r) /\ UNCHANGED <<qs, rules, ovs>>

Replaces(c) == Wait(c) # << >> /\ Wait(c)[Len(Wait(c))].up

(* put a new item at the end: it takes the place of an updateable one *)
PutBack(w, it) == IF w # << >> /\ w[Len(w)].up THEN [w EXCEPT ![Len(w)] = it] ELSE Append(w, it)

Enqueue(V, c, it) ==
  /\ c[1] \in DOMAIN qs
  /\ Replaces(c) \/ Room(V, c)
  /\ Set(c, PutBack(Wait(c), it), Run(c))

RefuseEnqueue(V, c) == c[1] \in DOMAIN qs /\ ~Replaces(c) /\ ~Room(V, c) /\ UNCHANGED wvars

Running == UNION {DOMAIN ch[c].run : c \in Chs}

(* hand the first item of c to a consumer *)
CanTake(V, c) == Wait(c) # << >> /\ MayRun(V, c)
Take(V, c, id, lo, hi, gb) ==
  /\ CanTake(V, c)
  /\ id \notin Running
  /\ LET it == Wait(c)[1] IN
     Set(c, Tail(Wait(c)), Lim!Put(Run(c), id, [it |-> it, lo |-> Top(lo, it.at), hi |-> hi, gb |-> gb]))

(* it did not reach the consumer *)
GiveBack(c, id, at) ==
  /\ id \in DOMAIN Run(c) /\ Run(c)[id].gb
  /\ LET it == [Run(c)[id].it EXCEPT !.at = at] IN
     Set(c, IF it.up /\ Wait(c) # << >> THEN Wait(c) ELSE <<it>> \o Wait(c), Lim!Drop(Run(c), {id}))

(* whoever had the item before may complete or fail it while it is handed out again *)
IsRunning(c, id) == id \in DOMAIN Run(c)
Delivered(c, id) == IsRunning(c, id) /\ ~Run(c)[id].gb

Complete(c, id) == IsRunning(c, id) /\ Set(c, Wait(c), Lim!Drop(Run(c), {id}))

(* where a failed item goes *)
AfterFail(w, old, at) ==
  LET it == [old EXCEPT !.rc = @ + 1, !.at = at] IN
  CASE it.rc > it.ra                              -> w
    [] it.pos = "front" /\ it.up /\ w # << >>     -> w
    [] it.pos = "front"                           -> <<it>> \o w
    [] OTHER                                      -> PutBack(w, it)

Fail(c, id, at) == IsRunning(c, id) /\ Set(c, AfterFail(Wait(c), Run(c)[id].it, at), Lim!Drop(Run(c), {id}))

Heartbeat(c, id, lo, hi) ==
  /\ Delivered(c, id)
  /\ Set(c, Wait(c), [Run(c) EXCEPT ![id].lo = Top(@, lo), ![id].hi = hi])

Deadline(r)    == r.lo + r.it.to
MayExpire(r, now) == ~r.gb /\ now >= Deadline(r)
Expire(c, id, now) == MayExpire(Run(c)[id], now) /\ Fail(c, id, Deadline(Run(c)[id]))


(******************************* invariants ********************************)
Consistent ==
  /\ \A c \in Chs : c[1] \in DOMAIN qs /\ Items(c) > 0
  /\ \A c, d \in Chs : c # d => DOMAIN ch[c].run \cap DOMAIN ch[d].run = {}
=============================================================================

------------------------------- MODULE Locker -------------------------------
(***************************************************************************)
(* The exclusive lock service: what a user of the service can rely on.     *)
(*                                                                         *)
(* A key is the full set of key/value pairs that names a lock.  A lock is  *)
(* granted as a fresh session; only that session keeps it alive or gives   *)
(* it back; without a heartbeat for `ttl' it expires.  Time is explicit:   *)
(* `beat' is the earliest instant at which the last beat can have happened *)
(* and `free' the earliest instant at which the lock can have become free. *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS NoSession, NoId

VARIABLES owner,   \* [Keys -> session or NoSession]
          lid,     \* [Keys -> id of the lock object (NoId before the first grant)]
          ttl,     \* [Keys -> time the current session survives without a beat]
          beat,    \* [Keys -> earliest instant of the last beat]
          free,    \* [Keys -> earliest instant at which the lock became free]
          used,    \* sessions ever granted
          ids      \* [Keys -> set of every lock id ever seen for the key]

lvars == <<owner, lid, ttl, beat, free, used, ids>>

Max(a, b) == IF a > b THEN a ELSE b

LInit(Keys) ==
  /\ owner = [k \in Keys |-> NoSession]
  /\ lid   = [k \in Keys |-> NoId]
  /\ ttl   = [k \in Keys |-> 0]
  /\ beat  = [k \in Keys |-> 0]
  /\ free  = [k \in Keys |-> 0]
  /\ used  = {}
  /\ ids   = [k \in Keys |-> {}]

Free(k) == owner[k] = NoSession

(* A request made at `at' is granted the free lock k as session s. *)
Grant(k, s, id, to, at) ==
  /\ Free(k)
  /\ s \notin used                                  \* sessions are never reused
  /\ \A j \in DOMAIN ids : j # k => id \notin ids[j]  \* a lock id names one key
  /\ owner' = [owner EXCEPT ![k] = s]
  /\ lid'   = [lid EXCEPT ![k] = id]
  /\ ttl'   = [ttl EXCEPT ![k] = to]
  /\ beat'  = [beat EXCEPT ![k] = Max(at, free[k])]
  /\ used'  = used \cup {s}
  /\ ids'   = [ids EXCEPT ![k] = @ \cup {id}]
  /\ UNCHANGED free

Holds(id, s, k) == owner[k] = s /\ lid[k] = id
HeldBy(id, s)   == \E k \in DOMAIN owner : Holds(id, s, k)

Beat(id, s, at) ==
  \E k \in DOMAIN owner :
    /\ Holds(id, s, k)
    /\ beat' = [beat EXCEPT ![k] = Max(@, at)]
    /\ UNCHANGED <<owner, lid, ttl, free, used, ids>>

Release(id, s, at) ==
  \E k \in DOMAIN owner :
    /\ Holds(id, s, k)
    /\ owner' = [owner EXCEPT ![k] = NoSession]
    /\ free'  = [free EXCEPT ![k] = Max(at, beat[k])]
    /\ UNCHANGED <<lid, ttl, beat, used, ids>>

(* a claim that is not the holder's is refused and changes nothing *)
Refuse(id, s) == ~HeldBy(id, s) /\ UNCHANGED lvars

(* the service may refuse "lock unknown" only if no live lock has this id *)
UnknownId(id) == \A k \in DOMAIN owner : ~(owner[k] # NoSession /\ lid[k] = id)
RefuseMissing(id) == UnknownId(id) /\ UNCHANGED lvars

Expired(k, now) == owner[k] # NoSession /\ now >= beat[k] + ttl[k]

Expire(k, now) ==
  /\ Expired(k, now)
  /\ owner' = [owner EXCEPT ![k] = NoSession]
  /\ free'  = [free EXCEPT ![k] = beat[k] + ttl[k]]
  /\ UNCHANGED <<lid, ttl, beat, used, ids>>

(*********************************** properties ****************************)
OneHolder == \A j, k \in DOMAIN owner : (j # k /\ owner[j] # NoSession) => owner[j] # owner[k]
=============================================================================

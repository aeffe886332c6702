------------------------------ MODULE MCLocker ------------------------------
(***************************************************************************)
(* Closed model of the lock service: clients that acquire, wait, beat,     *)
(* release, present stale sessions, go away or stay silent, over a discrete *)
(* clock.  Checked exhaustively: the guarantees a user relies on follow     *)
(* from the transitions of Locker (which the real code is bound to by       *)
(* LockerTrace).                                                            *)
(***************************************************************************)
EXTENDS Locker, Sequences, TLC

CONSTANTS Keys, Clients, Sessions, MaxTime, TTLs

VARIABLES now, wait, mine, lastbeat, granted
mvars == <<now, wait, mine, lastbeat, granted>>
vars == <<lvars, mvars>>

Ids == Keys   \* the lock object of a key keeps one id in this model

Init ==
  /\ LInit(Keys)
  /\ now = 0
  /\ wait = [c \in Clients |-> ""]              \* the key a client waits for
  /\ mine = [c \in Clients |-> [k |-> "", s |-> ""]]  \* what the client believes it holds
  /\ lastbeat = [s \in Sessions |-> -1]          \* when the holder last beat (or was granted)
  /\ granted = [k \in Keys |-> 0]                \* how often a lock was handed out

Ask(c) ==
  /\ wait[c] = "" /\ mine[c].s = ""
  /\ \E k \in Keys : wait' = [wait EXCEPT ![c] = k]
  /\ UNCHANGED <<lvars, now, mine, lastbeat, granted>>

GoAway(c) ==
  /\ wait[c] # ""
  /\ wait' = [wait EXCEPT ![c] = ""]
  /\ UNCHANGED <<lvars, now, mine, lastbeat, granted>>

Acquire(c) ==
  /\ wait[c] # ""
  /\ \E s \in Sessions \ used, t \in TTLs :
       /\ Grant(wait[c], s, wait[c], t, now)
       /\ mine' = [mine EXCEPT ![c] = [k |-> wait[c], s |-> s]]
       /\ lastbeat' = [lastbeat EXCEPT ![s] = now]
  /\ granted' = [granted EXCEPT ![wait[c]] = @ + 1]
  /\ wait' = [wait EXCEPT ![c] = ""]
  /\ UNCHANGED now

(* any session ever granted may be presented for any lock: late, stale or foreign *)
Present(c) ==
  \E k \in Keys, s \in used :
    \/ /\ Beat(k, s, now)
       /\ lastbeat' = [lastbeat EXCEPT ![s] = now]
       /\ UNCHANGED <<now, wait, mine, granted>>
    \/ /\ Release(k, s, now)
       /\ mine' = [d \in Clients |-> IF mine[d].s = s THEN [k |-> "", s |-> ""] ELSE mine[d]]
       /\ UNCHANGED <<now, wait, lastbeat, granted>>
    \/ /\ (Refuse(k, s) \/ RefuseMissing(k))
       /\ mine' = [d \in Clients |-> IF mine[d].s = s /\ mine[d].k = k THEN [k |-> "", s |-> ""] ELSE mine[d]]
       /\ UNCHANGED <<now, wait, lastbeat, granted>>

TimeoutK(k) ==
  /\ Expire(k, now)
  /\ UNCHANGED mvars

(* a lock that expired does not outlive the instant at which it expired: time waits for it *)
Tick ==
  /\ now < MaxTime
  /\ \A k \in Keys : ~Expired(k, now)
  /\ now' = now + 1
  /\ UNCHANGED <<lvars, wait, mine, lastbeat, granted>>

Next == Tick \/ (\E c \in Clients : Ask(c) \/ GoAway(c) \/ Acquire(c) \/ Present(c)) \/ (\E k \in Keys : TimeoutK(k))

(* the lock service is fair: it expires what has to expire and serves who waits *)
Fair == WF_vars(Tick) /\ (\A k \in Keys : WF_vars(TimeoutK(k))) /\ (\A c \in Clients : WF_vars(Acquire(c)))
Spec == Init /\ [][Next]_vars /\ Fair

(******************************** properties ********************************)
(* one holder, and a session names one grant *)
MutualExclusion == OneHolder
(* the service never has more than one valid session per key: a client whose session is the owner's is unique *)
OneBeliever == \A c, d \in Clients : (c # d /\ mine[c].s # "" /\ mine[c].s = mine[d].s) => FALSE
Min2 == CHOOSE t \in TTLs : \A u \in TTLs : t <= u
(* a lock that was kept alive is held: no holder loses its lock within its time-out *)
Retained == \A c \in Clients : (mine[c].s # "" /\ owner[mine[c].k] # mine[c].s) => now >= lastbeat[mine[c].s] + Min2
(* a silent holder loses its lock when its time-out passed *)
Bounded == \A k \in Keys : owner[k] # NoSession => now <= lastbeat[owner[k]] + ttl[k]
(* only the owner, or its time-out, ends a hold *)
OwnerOnly == [][\A k \in Keys : (owner[k] # NoSession /\ owner'[k] # owner[k]) =>
                  (owner'[k] = NoSession /\ (Release(k, owner[k], now) \/ Expire(k, now)))]_vars
Fresh == [][\A k \in Keys : (owner'[k] # owner[k] /\ owner'[k] # NoSession) => owner'[k] \notin used]_vars
(* who waits and stays is served, while sessions last *)
Served == \A k \in Keys : (owner[k] # NoSession) ~> (owner[k] = NoSession \/ now = MaxTime)
Symm == Permutations(Sessions) \cup Permutations(Clients)
=============================================================================

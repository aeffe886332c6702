------------------------------- MODULE Limiter -------------------------------
(***************************************************************************)
(* The limiter: rules with overrides bound the counters that may exist.    *)
(***************************************************************************)
EXTENDS Query

VARIABLES rules,   \* [rule id -> [kv, limit]]
          ovs,     \* [override id -> [rule, kv, limit]]
          ctr      \* [key values -> number > 0]

mvars == <<rules, ovs, ctr>>

MInit == rules = << >> /\ ovs = << >> /\ ctr = << >>

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, S) == [z \in DOMAIN f \ S |-> f[z]]

OvsOf(r) == {o \in DOMAIN ovs : ovs[o].rule = r}

(********************************* rules ***********************************)
RuleNamed(kv) == \E r \in DOMAIN rules : rules[r].kv = kv

CreateRule(id, kv, limit) ==
  /\ ~RuleNamed(kv) /\ id \notin DOMAIN rules
  /\ rules' = Put(rules, id, [kv |-> kv, limit |-> limit])
  /\ UNCHANGED <<ovs, ctr>>

UpdateRule(id, limit) ==
  /\ id \in DOMAIN rules
  /\ rules' = [rules EXCEPT ![id].limit = limit]
  /\ UNCHANGED <<ovs, ctr>>

DeleteRule(id) ==
  /\ id \in DOMAIN rules
  /\ rules' = Drop(rules, {id})
  /\ ovs' = Drop(ovs, OvsOf(id))
  /\ UNCHANGED ctr

OvNamed(r, kv) == \E o \in OvsOf(r) : ovs[o].kv = kv

CreateOverride(r, id, kv, limit) ==
  /\ r \in DOMAIN rules /\ id \notin DOMAIN ovs
  /\ DOMAIN rules[r].kv \subseteq DOMAIN kv
  /\ ~OvNamed(r, kv)
  /\ ovs' = Put(ovs, id, [rule |-> r, kv |-> kv, limit |-> limit])
  /\ UNCHANGED <<rules, ctr>>

UpdateOverride(r, id, limit) ==
  /\ r \in DOMAIN rules /\ id \in OvsOf(r)
  /\ ovs' = [ovs EXCEPT ![id].limit = limit]
  /\ UNCHANGED <<rules, ctr>>

DeleteOverride(r, id) ==
  /\ r \in DOMAIN rules
  /\ ovs' = IF id \in OvsOf(r) THEN Drop(ovs, {id}) ELSE ovs
  /\ UNCHANGED <<rules, ctr>>

(******************************** counters *********************************)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* what already counts together with kv for a limit grouped by the keys K *)
Together(K, kv, c) == K \subseteq DOMAIN c /\ \A k \in K : c[k] = kv[k]
TotalIn(cs, K, kv) == SumOver(cs, {c \in DOMAIN cs : Together(K, kv, c)})
Total(K, kv) == TotalIn(ctr, K, kv)

WithinIn(cs, K, kv, n, limit) == limit = -1 \/ TotalIn(cs, K, kv) + n <= limit
Within(K, kv, n, limit) == WithinIn(ctr, K, kv, n, limit)

(* the limits that decide about kv: of each rule that applies its applying overrides, or, if
   there are none, its own *)
Limits(V, kv) ==
  UNION {LET os == {o \in OvsOf(r) : Applies(V, ovs[o].kv, kv)}
         IN IF os = {} THEN {<<DOMAIN rules[r].kv, rules[r].limit>>}
                       ELSE {<<DOMAIN ovs[o].kv, ovs[o].limit>> : o \in os}
         : r \in {x \in DOMAIN rules : Applies(V, rules[x].kv, kv)}}

Allowed(V, kv, n) == \A x \in Limits(V, kv) : Within(x[1], kv, n, x[2])

Count(kv) == IF kv \in DOMAIN ctr THEN ctr[kv] ELSE 0
SetTo(kv, n) == ctr' = (IF n > 0 THEN Put(ctr, kv, n) ELSE Drop(ctr, {kv})) /\ UNCHANGED <<rules, ovs>>

Increment(V, kv, n) == n > 0 /\ Allowed(V, kv, n) /\ SetTo(kv, Count(kv) + n)
Refuse(V, kv, n)    == n > 0 /\ ~Allowed(V, kv, n) /\ UNCHANGED mvars
Decrement(kv, n)    == n <= 0 /\ (IF kv \in DOMAIN ctr THEN SetTo(kv, Count(kv) + n) ELSE UNCHANGED mvars)
SetCounter(kv, n)   == SetTo(kv, n)

(* many increments and decrements at once, by several clients: rows [kv, acc, ref, net] say how many increments by
   one were accepted and refused and what everything accepted sums up to.  Nobody decrements when there are refusals. *)
Burst(V, rows) ==
  LET ks == {rows[i].kv : i \in 1..Len(rows)}
      net(k) == SumOver([i \in 1..Len(rows) |-> rows[i].net], {i \in 1..Len(rows) : rows[i].kv = k})
      new == [k \in DOMAIN ctr \cup ks |-> Count(k) + (IF k \in ks THEN net(k) ELSE 0)]
      after == Drop(new, {k \in DOMAIN new : new[k] <= 0})
  IN \* what was refused had no room, and there is no more room now
     /\ \A i \in 1..Len(rows) : rows[i].ref > 0 =>
          \E x \in Limits(V, rows[i].kv) : ~WithinIn(after, x[1], rows[i].kv, 1, x[2])
     \* what was accepted is within the limits (unless something it counts together with has other limits)
     /\ \A i \in 1..Len(rows) : rows[i].acc > 0 =>
          \A x \in Limits(V, rows[i].kv) :
            \/ WithinIn(after, x[1], rows[i].kv, 0, x[2])
            \/ \E k \in ks : Together(x[1], rows[i].kv, k) /\ x \notin Limits(V, k)
     /\ ctr' = after
     /\ UNCHANGED <<rules, ovs>>

(********************************* invariants ******************************)
Consistent ==
  /\ \A a, b \in DOMAIN rules : rules[a].kv = rules[b].kv => a = b
  /\ \A a, b \in DOMAIN ovs : (ovs[a].rule = ovs[b].rule /\ ovs[a].kv = ovs[b].kv) => a = b
  /\ \A o \in DOMAIN ovs : ovs[o].rule \in DOMAIN rules /\ DOMAIN rules[ovs[o].rule].kv \subseteq DOMAIN ovs[o].kv
  /\ \A c \in DOMAIN ctr : ctr[c] > 0
=============================================================================

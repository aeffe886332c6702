------------------------------ MODULE MCLimiter ------------------------------
(* The limiter, exhaustively over small rules, overrides and counters.       *)
EXTENDS Limiter, TLC

CONSTANTS MaxTotal, RIds, OIds, Lims, WithSet
LimsQuick == {-1, 0, 2}
LimsBig == {-1, 0, 1, 2}

V == ("1:1" :> [t |-> 1, n |-> 0]) @@ ("1:2" :> [t |-> 1, n |-> 1]) @@ ("1024:" :> [t |-> 1024, n |-> 2])

A(x) == "a" :> x
AB(x, y) == ("a" :> x) @@ ("b" :> y)
RKV == {A("1:1"), A("1024:")}
OKV == {A("1:1"), AB("1024:", "1:1"), AB("1:1", "1:1")}
CKV == {A("1:1"), AB("1:1", "1:1"), A("1:2")}

VARIABLES tame, used   \* tame: since the first counter, no rule changed and nothing was set past the rules
vars == <<rules, ovs, ctr, tame, used>>

Init == MInit /\ tame = TRUE /\ used = {}

Setup == (tame' = (tame /\ ctr = << >>))

Next ==
  \/ Setup /\ UNCHANGED used /\
     \/ \E r \in DOMAIN rules, n \in Lims : UpdateRule(r, n)
     \/ \E r \in DOMAIN rules : DeleteRule(r)
     \/ \E r \in DOMAIN rules, o \in DOMAIN ovs, n \in Lims : UpdateOverride(r, o, n)
     \/ \E r \in DOMAIN rules, o \in DOMAIN ovs : DeleteOverride(r, o)
  \/ Setup /\ \E r \in RIds \ used, kv \in RKV, n \in Lims : CreateRule(r, kv, n) /\ used' = used \cup {r}
  \/ Setup /\ \E r \in DOMAIN rules, o \in OIds \ used, kv \in OKV, n \in Lims : CreateOverride(r, o, kv, n) /\ used' = used \cup {o}
  \/ UNCHANGED <<tame, used>> /\ \E kv \in CKV, n \in 1..2 : Increment(V, kv, n) \/ Refuse(V, kv, n)
  \/ UNCHANGED <<tame, used>> /\ \E kv \in CKV, n \in {0, -1, -2} : Decrement(kv, n)
  \/ WithSet /\ tame' = FALSE /\ UNCHANGED used /\ \E kv \in CKV, n \in 0..2 : SetCounter(kv, n)

Spec == Init /\ [][Next]_vars
Bound == \A c \in DOMAIN ctr : ctr[c] <= MaxTotal

(* the limit of an override bounds every group of counters it applies to *)
OverridesHold ==
  tame => \A o \in DOMAIN ovs, c \in DOMAIN ctr :
            (Applies(V, ovs[o].kv, c) /\ ovs[o].limit # -1) => Total(DOMAIN ovs[o].kv, c) <= ovs[o].limit

(* the limit of a rule bounds every group in which no counter has an override *)
RulesHold ==
  tame => \A r \in DOMAIN rules, c \in DOMAIN ctr :
            LET K == DOMAIN rules[r].kv
                group == {d \in DOMAIN ctr : K \subseteq DOMAIN d /\ \A k \in K : d[k] = c[k]}
            IN (Applies(V, rules[r].kv, c) /\ rules[r].limit # -1
                /\ \A d \in group, o \in OvsOf(r) : ~Applies(V, ovs[o].kv, d))
               => Total(K, c) <= rules[r].limit

(* what is not limited is never refused; where something applies with limit 0 nothing is added *)
NotLimited == \A kv \in CKV : Limits(V, kv) \subseteq {x \in Limits(V, kv) : x[2] = -1} => Allowed(V, kv, 2)
Blocked    == \A kv \in CKV : (\E x \in Limits(V, kv) : x[2] = 0) => ~Allowed(V, kv, 1)
=============================================================================

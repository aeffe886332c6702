-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* The meaning of the query language every service shares.                 *)
(*                                                                         *)
(* A value is a string "T:data"; V[v] = [t |-> type, n |-> rank] gives its *)
(* type and its place in the total order of all values (by type, then by   *)
(* value).  Type 1024 is Any, the last type; a value of type Any equals    *)
(* every value.  An object is named by key values: a function from keys to *)
(* values.                                                                 *)
(*                                                                         *)
(* Query  [has, ids, kvs, mn, mx, and, or]: kvs maps keys to               *)
(*        [v, c, min, max]; mn, mx bound the number of key values (-1:     *)
(*        none); has: the query has a selection at all.                    *)
(* Match  [kvs, mn, mx]: kvs maps keys to [v, min, max].                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

AnyT == 1024

TypeOf(V, v) == V[v].t
InRange(V, v, c) == c.min <= V[v].t /\ V[v].t <= c.max

IsAny(V, v) == V[v].t = AnyT
Eq(V, a, b) == a = b \/ IsAny(V, a) \/ IsAny(V, b)
Lt(V, a, b) == V[a].n < V[b].n

(* does the stored value v satisfy the comparison c? *)
Holds(V, v, c) ==
  /\ InRange(V, v, c)
  /\ CASE c.c \in {"=", "!="} -> Eq(V, v, c.v)
       [] c.c = "<"  -> IsAny(V, v) \/ Lt(V, v, c.v)
       [] c.c = "<=" -> IsAny(V, v) \/ ~Lt(V, c.v, v)
       [] c.c = ">"  -> IsAny(V, v) \/ Lt(V, c.v, v)
       [] c.c = ">=" -> IsAny(V, v) \/ ~Lt(V, v, c.v)
       [] OTHER -> FALSE

Selects(V, q, id, kv) ==
  LET keys == DOMAIN q.kvs
      neg  == {k \in keys : q.kvs[k].c = "!="}
      size == Cardinality(DOMAIN kv)
  IN /\ (Len(q.ids) = 0 \/ \E i \in 1..Len(q.ids) : q.ids[i] = id)
     /\ (q.mn = -1 \/ size >= q.mn)
     /\ (q.mx = -1 \/ size <= q.mx)
     /\ \A k \in keys \ neg : k \in DOMAIN kv /\ Holds(V, kv[k], q.kvs[k])
     \* several not-equals exclude what has all of the values
     /\ (neg = {} \/ \E k \in neg : ~(k \in DOMAIN kv /\ Holds(V, kv[k], q.kvs[k])))

RECURSIVE Sat(_, _, _, _)
Sat(V, q, id, kv) ==
  \/ ~q.has /\ Len(q.and) = 0 /\ Len(q.or) = 0
  \/ /\ q.has \/ Len(q.and) # 0
     /\ q.has => Selects(V, q, id, kv)
     /\ \A i \in 1..Len(q.and) : Sat(V, q.and[i], id, kv)
  \/ \E i \in 1..Len(q.or) : Sat(V, q.or[i], id, kv)

Matches(V, m, kv) ==
  LET size == Cardinality(DOMAIN kv)
  IN /\ DOMAIN kv \subseteq DOMAIN m.kvs
     /\ (m.mn = -1 \/ size >= m.mn)
     /\ (m.mx = -1 \/ size <= m.mx)
     /\ \A k \in DOMAIN kv : InRange(V, kv[k], m.kvs[k]) /\ Eq(V, kv[k], m.kvs[k].v)

(* the objects that apply to given key values: same values, or Any, for some of the keys *)
Applies(V, kv, given) ==
  /\ DOMAIN kv \subseteq DOMAIN given
  /\ \A k \in DOMAIN kv : kv[k] = given[k] \/ IsAny(V, kv[k])
=============================================================================

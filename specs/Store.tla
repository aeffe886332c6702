-------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* The store of objects named by key values, seen from outside.  An object *)
(* belongs to a group (`one'), has an id, key values and a value.  Within  *)
(* a group no two objects have the same key values; ids are never used     *)
(* twice.                                                                  *)
(***************************************************************************)
EXTENDS Query

VARIABLES objs,     \* id -> [one, kv, v]
          used      \* all ids ever handed out -> their key values

svars == <<objs, used>>

SInit == objs = << >> /\ used = << >>

Named(one, kv) == {i \in DOMAIN objs : objs[i].one = one /\ objs[i].kv = kv}
Group(one)     == {i \in DOMAIN objs : objs[i].one = one}

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, S)   == [z \in DOMAIN f \ S |-> f[z]]

Create(one, kv, v, id) ==
  /\ Named(one, kv) = {} /\ id \notin DOMAIN used /\ id # ""
  /\ objs' = Put(objs, id, [one |-> one, kv |-> kv, v |-> v])
  /\ used' = Put(used, id, kv)

(* the caller was asked about object a, and agreed *)
Remove(one, a) ==
  /\ a.id \in Group(one) /\ objs[a.id].kv = a.kv /\ objs[a.id].v = a.v
  /\ objs' = Drop(objs, {a.id})
  /\ UNCHANGED used

(* everything of a group is offered for removal, each once, until one is refused *)
DestroyGroup(one, asked, refused) ==
  LET n == Len(asked)
      stop == n > 0 /\ asked[n].v \in refused
  IN /\ \A i \in 1..n : asked[i].id \in Group(one) /\ objs[asked[i].id].kv = asked[i].kv /\ objs[asked[i].id].v = asked[i].v
     /\ \A i, j \in 1..n : asked[i].id = asked[j].id => i = j
     /\ \A i \in 1..(n - 1) : asked[i].v \notin refused
     /\ stop \/ n = Cardinality(Group(one))
     /\ objs' = Drop(objs, {asked[i].id : i \in 1..(IF stop THEN n - 1 ELSE n)})
     /\ UNCHANGED used

(* the types of the invariant of every reachable state *)
OneName == \A i, j \in DOMAIN objs : (objs[i].one = objs[j].one /\ objs[i].kv = objs[j].kv) => i = j
=============================================================================

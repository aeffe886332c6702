--------------------------------- MODULE Map ---------------------------------
(***************************************************************************)
(* The ordered tree, seen from outside: a map from typed keys to values.   *)
(***************************************************************************)
EXTENDS Query

VARIABLE m      \* [key -> value]

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Drop(f, S) == [z \in DOMAIN f \ S |-> f[z]]

Create(k, v)     == k \notin DOMAIN m /\ m' = Put(m, k, v)
Delete(k, v)     == k \in DOMAIN m /\ m[k] = v /\ m' = Drop(m, {k})

(* everything is offered for removal, each key once, until one is refused; what was not refused is gone *)
DestroyAll(asked, refused) ==
  LET n == Len(asked)
      stop == n > 0 /\ asked[n].k \in refused
  IN /\ \A i \in 1..n : asked[i].k \in DOMAIN m /\ m[asked[i].k] = asked[i].v
     /\ \A i, j \in 1..n : asked[i].k = asked[j].k => i = j
     /\ \A i \in 1..(n - 1) : asked[i].k \notin refused
     /\ stop \/ n = Cardinality(DOMAIN m)
     /\ m' = Drop(m, {asked[i].k : i \in 1..(IF stop THEN n - 1 ELSE n)})

(* the keys a lookup of kind c for k visits; c.min and c.max restrict the types *)
Visits(V, c, x) ==
  CASE c.c = "any" -> InRange(V, x, c)
    [] c.c = "="   -> (x = c.k /\ InRange(V, x, c)) \/ (IsAny(V, x) /\ c.max = AnyT)
    [] c.c = "!="  -> InRange(V, x, c) /\ x # c.k
    [] c.c = "<"   -> InRange(V, x, c) /\ (Lt(V, x, c.k) \/ IsAny(V, x))
    [] c.c = "<="  -> InRange(V, x, c) /\ (~Lt(V, c.k, x) \/ IsAny(V, x))
    [] c.c = ">"   -> InRange(V, x, c) /\ Lt(V, c.k, x)
    [] c.c = ">="  -> InRange(V, x, c) /\ ~Lt(V, x, c.k)

(* the rows a lookup that stops after n visits may report *)
Lookup(V, c, n, rows) ==
  LET all == {x \in DOMAIN m : Visits(V, c, x)}
      size == Cardinality(all)
  IN /\ \A i \in 1..Len(rows) : rows[i].k \in all /\ m[rows[i].k] = rows[i].v
     /\ \A i, j \in 1..Len(rows) : rows[i].k = rows[j].k => i = j
     /\ Len(rows) = (IF n < size THEN n ELSE size)
=============================================================================

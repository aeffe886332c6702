----------------------------- MODULE StoreTrace -----------------------------
(* Checks histories recorded from the real associated and one-to-many trees against Store.

   Creations, deletions, destructions and lookups of one name or id are strictly linearizable.  A query or match
   looks at many objects, not all at one instant: it reports every matching object that is there from its
   invocation to its answer, may report objects that are there for part of that time, and nothing else. *)
EXTENDS Store, TraceBase

VARIABLE win   \* open queries: o -> [can |-> the objects it may report, must |-> the ids it has to]

vars == <<objs, used, win, tid, l, pend, lin>>
V == Cfg.vals

Init == TInit /\ SInit /\ win = << >>

Weak(o) == Ops[o].op \in {"query", "match"}
Open(o) == (pend \cup lin) \ {o}

(* an object of this name, or of this id, is being destroyed at this moment *)
NameBusy(one, kv, o) == \E d \in Open(o) : Ops[d].op = "destroyId" /\ Ops[d].one = one /\ Ops[d].r.st = "ok" /\ Ops[d].r.called /\ Ops[d].r.asked.kv = kv
IdBusy(id, o)        == \E d \in Open(o) : Ops[d].op = "destroyId" /\ Ops[d].id = id
GroupBusy(one, o)    == \E d \in Open(o) : Ops[d].op = "destroyAll" /\ Ops[d].one = one
Destroyed(S)         == {Ops[d].id : d \in {x \in S : Ops[x].op = "destroyId"}}

Selected(o, obj, id) ==
  LET op == Ops[o] IN
  /\ obj.one = op.one
  /\ IF op.op = "query" THEN Sat(V, op.q, id, obj.kv) ELSE Matches(V, op.q, obj.kv)

(* what a query reports *)
WeakOk(o) ==
  LET op == Ops[o] rows == op.r.rows w == win[o]
      ids == {rows[i].id : i \in 1..Len(rows)}
  IN /\ \A i \in 1..Len(rows) : /\ rows[i].id \in DOMAIN w.can
                                /\ w.can[rows[i].id].kv = rows[i].kv /\ w.can[rows[i].id].v = rows[i].v
                                /\ Selected(o, w.can[rows[i].id], rows[i].id)
     /\ Cardinality(ids) = Len(rows)
     /\ IF Len(rows) >= op.n THEN Len(rows) = op.n
        ELSE \A id \in w.must : Selected(o, w.can[id], id) => id \in ids

AskedOk(one, a, can) == a.id \in Group(one) /\ objs[a.id].kv = a.kv /\ objs[a.id].v = a.v /\ ~can

(* answers that change nothing *)
PureOk(o) ==
  LET op == Ops[o] r == op.r IN
  CASE op.op = "hammer" -> Range(r.answers) \subseteq {"ok", "groupDestroying"}
    [] op.op = "tags" -> r.yes = Sat(V, op.q, "", op.kv)
    [] r.st = "groupDestroying" -> GroupBusy(op.one, o) /\ ~r.called
    [] r.st = "itemDestroying" -> /\ ~r.called
                                  /\ CASE op.op \in {"cof", "del"} -> NameBusy(op.one, op.kv, o)
                                       [] op.op = "delId" -> op.id \in DOMAIN used /\ (IdBusy(op.id, o) \/ NameBusy(op.one, used[op.id], o))
                                       [] op.op = "destroyId" -> IdBusy(op.id, o)
                                       [] OTHER -> FALSE
    [] op.op = "create" /\ r.st = "exists" -> ~r.called /\ (Named(op.one, op.kv) # {} \/ NameBusy(op.one, op.kv, o))
    [] op.op \in {"create", "cof"} /\ r.st = "ok" /\ ~r.found /\ op.fail -> r.called /\ Named(op.one, op.kv) = {}
    [] op.op = "cof" /\ r.st = "ok" /\ r.found -> ~r.called /\ r.id \in Named(op.one, op.kv) /\ objs[r.id].v = r.v
    [] op.op = "del" /\ r.st = "ok" /\ ~r.called -> Named(op.one, op.kv) = {}
    [] op.op = "delId" /\ r.st = "ok" /\ ~r.called -> op.id \notin Group(op.one) \/ IdBusy(op.id, o)
    [] op.op = "destroyId" /\ r.st = "ok" /\ ~r.called -> op.id \notin Group(op.one)
    [] op.op \in {"del", "delId", "destroyId"} /\ r.st = "ok" /\ r.called -> AskedOk(op.one, r.asked, op.can) /\
         (IF op.op = "del" THEN r.asked.kv = op.kv ELSE r.asked.id = op.id)
    [] op.op = "destroyAll" /\ r.st = "ok" /\ Len(r.asked) = 0 -> Group(op.one) = {}
    [] op.op = "get" /\ r.st = "ok" -> \/ Len(r.rows) = 0 /\ (Named(op.one, op.kv) = {} \/ NameBusy(op.one, op.kv, o))
                                       \/ /\ Len(r.rows) = 1 /\ r.rows[1].id \in Named(op.one, op.kv)
                                          /\ r.rows[1].v = objs[r.rows[1].id].v /\ r.rows[1].kv = op.kv
    [] op.op = "getId" /\ r.st = "ok" -> \/ Len(r.rows) = 0 /\ (op.id \notin Group(op.one) \/ IdBusy(op.id, o))
                                         \/ /\ Len(r.rows) = 1 /\ r.rows[1].id = op.id /\ op.id \in Group(op.one)
                                            /\ r.rows[1].v = objs[op.id].v /\ r.rows[1].kv = objs[op.id].kv
    [] Weak(o) /\ r.st = "ok" -> Need /\ Ev[l].o = o /\ WeakOk(o)
    [] OTHER -> FALSE

Apply(o) ==
  LET op == Ops[o] r == op.r IN
  CASE op.op \in {"create", "cof"} /\ r.st = "ok" /\ ~r.found /\ ~op.fail -> r.called /\ Create(op.one, op.kv, op.v, r.id)
    [] op.op = "del" /\ r.st = "ok" /\ r.called /\ op.can -> r.asked.kv = op.kv /\ Remove(op.one, r.asked)
    [] op.op \in {"delId", "destroyId"} /\ r.st = "ok" /\ r.called /\ op.can -> r.asked.id = op.id /\ Remove(op.one, r.asked)
    [] op.op = "destroyAll" /\ r.st = "ok" -> Len(r.asked) > 0 /\ DestroyGroup(op.one, r.asked, Range(op.refuse))
    [] OTHER -> FALSE

(* open queries see what is created and removed meanwhile *)
Windows ==
  win' = [o \in DOMAIN win |-> [can  |-> [i \in DOMAIN win[o].can \cup DOMAIN objs' |->
                                            IF i \in DOMAIN objs' THEN objs'[i] ELSE win[o].can[i]],
                                must |-> win[o].must \cap DOMAIN objs']]

Inv ==
  LET o == Ev[l].o IN
  /\ TInv /\ UNCHANGED svars
  /\ win' = ( CASE Weak(o) -> Put(win, o, [can |-> objs, must |-> DOMAIN objs \ Destroyed(pend \cup lin)])
                [] Ops[o].op = "destroyId" -> [w \in DOMAIN win |-> [win[w] EXCEPT !.must = @ \ {Ops[o].id}]]
                [] OTHER -> win )

Res == TRes /\ UNCHANGED svars /\ win' = Drop(win, {Ev[l].o})

Pure == {o \in pend : PureOk(o)}
Absorb == Pure # {} /\ TLin(Pure) /\ UNCHANGED <<objs, used, win>>

(* operations on different names commute unless a group is destroyed or an id is looked up *)
NameOf(o) == LET op == Ops[o] IN
  CASE op.op \in {"create", "cof", "del", "get"} -> <<op.one, op.kv>>
    [] op.op \in {"delId", "destroyId"} /\ op.r.called -> <<op.one, op.r.asked.kv>>
    [] op.op = "getId" /\ Len(op.r.rows) > 0 -> <<op.one, op.r.rows[1].kv>>
    [] OTHER -> <<"*">>
Near(o) == ( \/ NameOf(Ev[l].o) = <<"*">> \/ NameOf(o) = <<"*">>
             \/ \E g \in pend : Ops[g].op = "destroyAll" \/ Weak(g)
             \/ NameOf(o) = NameOf(Ev[l].o) ) = TRUE
Lin(o) == Due(o) /\ Near(o) /\ Apply(o) /\ TLin({o}) /\ Windows

Next ==
  \/ Absorb
  \/ /\ Pure = {}
     /\ \/ Inv
        \/ Res
        \/ \E o \in pend : Lin(o)

Spec == Init /\ [][Next]_vars
=============================================================================

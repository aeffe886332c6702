------------------------------ MODULE MapTrace ------------------------------
(* Checks histories recorded from the real tree against Map. *)
EXTENDS Map, TraceBase

vars == <<m, tid, l, pend, lin>>
V == Cfg.vals

Init == TInit /\ m = [x \in {Cfg.init[i].k : i \in 1..Len(Cfg.init)} |->
                        Cfg.init[CHOOSE i \in 1..Len(Cfg.init) : Cfg.init[i].k = x].v]

Global(o) == \/ Ops[o].op \in {"destroyAll", "empty", "hammer"}
             \/ Ops[o].op = "iter" /\ ~(Ops[o].c = "=" /\ Ops[o].max < AnyT)

(* a key or the tree is being destroyed at this moment *)
KeyBusy(k, o) == \E d \in (pend \cup lin) \ {o} : Ops[d].op = "destroy" /\ Ops[d].k = k
TreeBusy(o)   == \E d \in (pend \cup lin) \ {o} : Ops[d].op = "destroyAll"

(* answers that change nothing *)
PureOk(o) ==
  LET op == Ops[o] r == op.r IN
  CASE op.op = "hammer" -> Range(r.answers) \subseteq {"ok", "treeDestroying"}
    [] r.st = "keyDestroying"  -> op.op \notin {"empty", "destroyAll"} /\ KeyBusy(op.k, o) /\ ~r.called
    [] r.st = "treeDestroying" -> op.op # "empty" /\ TreeBusy(o) /\ ~r.called
    [] op.op = "create" /\ r.st = "exists" -> op.k \in DOMAIN m /\ ~r.called
    [] op.op = "create" /\ r.st = "ok" /\ op.fail -> op.k \notin DOMAIN m /\ r.called
    [] op.op = "cof" /\ r.st = "ok" /\ r.found -> op.k \in DOMAIN m /\ m[op.k] = r.v /\ ~r.called
    [] op.op = "cof" /\ r.st = "ok" /\ ~r.found /\ op.fail -> op.k \notin DOMAIN m /\ r.called
    [] op.op \in {"del", "destroy"} /\ r.st = "ok" /\ ~r.called -> op.k \notin DOMAIN m
    [] op.op \in {"del", "destroy"} /\ r.st = "ok" /\ r.called /\ ~op.can -> op.k \in DOMAIN m /\ m[op.k] = r.v
    [] op.op = "destroyAll" /\ r.st = "ok" /\ Len(r.asked) = 0 -> DOMAIN m = {}
    [] op.op = "iter" /\ r.st = "ok" -> Lookup(V, op, op.n, r.rows)
    [] op.op = "empty" -> r.empty = (DOMAIN m = {})
    [] OTHER -> FALSE

Apply(o) ==
  LET op == Ops[o] r == op.r IN
  CASE op.op = "create" /\ r.st = "ok" /\ ~op.fail -> r.called /\ Create(op.k, op.v)
    [] op.op = "cof" /\ r.st = "ok" /\ ~r.found /\ ~op.fail -> r.called /\ Create(op.k, op.v)
    [] op.op \in {"del", "destroy"} /\ r.st = "ok" /\ r.called /\ op.can -> Delete(op.k, r.v)
    [] op.op = "destroyAll" /\ r.st = "ok" -> Len(r.asked) > 0 /\ DestroyAll(r.asked, Range(op.refuse))
    [] OTHER -> FALSE

Pure == {o \in pend : PureOk(o)}
Absorb == Pure # {} /\ TLin(Pure) /\ UNCHANGED m

(* Operations on different keys commute, so unless somebody looks at the whole tree only operations on the key
   of the due one need to take effect now. *)
Near(o) == ( \/ Ops[o].op = "destroyAll"
             \/ \E g \in pend \cup {Ev[l].o} : Global(g)
             \/ Ops[o].op # "hammer" /\ Ops[o].k = Ops[Ev[l].o].k ) = TRUE
Lin(o) == Due(o) /\ Near(o) /\ Apply(o) /\ TLin({o})

Next ==
  \/ Absorb
  \/ /\ Pure = {}
     /\ \/ TInv /\ UNCHANGED m
        \/ TRes /\ UNCHANGED m
        \/ \E o \in pend : Lin(o)

Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE LimiterTrace ----------------------------
(* Checks histories recorded from the real limiter service against Limiter. *)
EXTENDS Limiter, TraceBase

vars == <<rules, ovs, ctr, tid, l, pend, lin>>
V == Cfg.vals

Init == TInit /\ MInit

SeqSet(s) == {s[i] : i \in 1..Len(s)}
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

RuleRow(r) == [id |-> r, kv |-> rules[r].kv, limit |-> rules[r].limit]
OvRow(o)   == [id |-> o, kv |-> ovs[o].kv, limit |-> ovs[o].limit]
CtrRow(c)  == [kv |-> c, n |-> ctr[c]]

Rows(op, S) == NoDup(op.r.rows) /\ SeqSet(op.r.rows) = S

(* While a removal is under way its name is not free yet and what it removes is refused. *)
Deleting(kind, id, o) == \E d \in (pend \cup lin) \ {o} : Ops[d].op = kind /\ Ops[d].id = id
Created(kind, id, kv) == \E c \in 1..Len(Ops) : Ops[c].op = kind /\ Ops[c].r.st = "ok" /\ Ops[c].r.id = id /\ Ops[c].kv = kv
BusyRule(kv) == \E d \in pend \cup lin : Ops[d].op = "rule.delete" /\ Created("rule.create", Ops[d].id, kv)
BusyOv(r, kv) == \E d \in pend \cup lin : Ops[d].op = "ov.delete" /\ Ops[d].rule = r /\ Created("ov.create", Ops[d].id, kv)

(* answers that change nothing *)
PureOk(o) ==
  LET op == Ops[o] st == op.r.st IN
  CASE op.op = "rule.create" /\ st = "conflict" -> RuleNamed(op.kv) \/ BusyRule(op.kv)
    [] op.op \in {"rule.update", "rule.delete"} /\ st = "conflict" -> Deleting("rule.delete", op.id, o)
    [] op.op \in {"ov.get", "ov.query", "ov.match", "ov.update", "ov.delete"} /\ st = "conflict" -> Deleting("rule.delete", op.rule, o)
    [] op.op = "rule.get" /\ st = "ok"       -> op.id \in DOMAIN rules /\ op.r.row = RuleRow(op.id)
    [] op.op = "rule.get" /\ st = "missing"  -> op.id \notin DOMAIN rules
    [] op.op = "rule.query" /\ st = "ok"     -> Rows(op, {RuleRow(r) : r \in {x \in DOMAIN rules : Sat(V, op.q, x, rules[x].kv)}})
    [] op.op = "rule.match" /\ st = "ok"     -> Rows(op, {RuleRow(r) : r \in {x \in DOMAIN rules : Matches(V, op.m, rules[x].kv)}})
    [] op.op = "rule.update" /\ st = "missing" -> op.id \notin DOMAIN rules
    [] op.op = "rule.delete" /\ st = "missing" -> op.id \notin DOMAIN rules
    [] op.op = "ov.create" /\ st = "conflict"  -> \/ op.rule \in DOMAIN rules /\ (OvNamed(op.rule, op.kv) \/ BusyOv(op.rule, op.kv))
                                                  \/ Deleting("rule.delete", op.rule, o)
    [] op.op = "ov.create" /\ st = "missing"   -> op.rule \notin DOMAIN rules
    [] op.op = "ov.create" /\ st = "bad"       -> op.rule \in DOMAIN rules /\ ~(DOMAIN rules[op.rule].kv \subseteq DOMAIN op.kv)
    [] op.op = "ov.get" /\ st = "ok"         -> op.rule \in DOMAIN rules /\ op.id \in OvsOf(op.rule) /\ op.r.row = OvRow(op.id)
    [] op.op = "ov.get" /\ st = "missing"    -> op.rule \notin DOMAIN rules \/ op.id \notin OvsOf(op.rule)
    [] op.op = "ov.query" /\ st = "ok"       -> op.rule \in DOMAIN rules /\ Rows(op, {OvRow(x) : x \in {y \in OvsOf(op.rule) : Sat(V, op.q, y, ovs[y].kv)}})
    [] op.op = "ov.match" /\ st = "ok"       -> op.rule \in DOMAIN rules /\ Rows(op, {OvRow(x) : x \in {y \in OvsOf(op.rule) : Matches(V, op.m, ovs[y].kv)}})
    [] op.op \in {"ov.query", "ov.match"} /\ st = "missing" -> op.rule \notin DOMAIN rules
    [] op.op = "ov.update" /\ st = "missing" -> op.rule \notin DOMAIN rules \/ op.id \notin OvsOf(op.rule)
    [] op.op = "ov.delete" /\ st = "missing" -> op.rule \notin DOMAIN rules
    [] op.op = "ov.delete" /\ st = "ok"      -> op.rule \in DOMAIN rules /\ op.id \notin OvsOf(op.rule)
    [] op.op = "ctr.query" /\ st = "ok"      -> Rows(op, {CtrRow(c) : c \in {x \in DOMAIN ctr : Sat(V, op.q, "", x)}})
    [] op.op = "ctr.add" /\ st = "conflict"  -> op.n > 0 /\ ~Allowed(V, op.kv, op.n)
    [] op.op = "ctr.add" /\ st = "stalled"   -> TRUE     \* the machine stood still: the limiter lost its lock, reported it and did nothing
    [] OTHER -> FALSE

Apply(o) ==
  LET op == Ops[o] st == op.r.st IN
  CASE op.op = "rule.create" /\ st = "ok" -> CreateRule(op.r.id, op.kv, op.limit)
    [] op.op = "rule.update" /\ st = "ok" -> UpdateRule(op.id, op.limit)
    [] op.op = "rule.delete" /\ st = "ok" -> DeleteRule(op.id)
    [] op.op = "ov.create" /\ st = "ok"   -> CreateOverride(op.rule, op.r.id, op.kv, op.limit)
    [] op.op = "ov.update" /\ st = "ok"   -> UpdateOverride(op.rule, op.id, op.limit)
    [] op.op = "ov.delete" /\ st = "ok"   -> DeleteOverride(op.rule, op.id)
    [] op.op = "ctr.add" /\ st = "ok"     -> IF op.n > 0 THEN Increment(V, op.kv, op.n) ELSE Decrement(op.kv, op.n)
    [] op.op = "ctr.burst" /\ st = "ok"   -> Burst(V, op.r.rows)
    [] op.op = "ctr.set" /\ st = "ok"     -> SetCounter(op.kv, op.n)
    [] OTHER -> FALSE

Pure == {o \in pend : PureOk(o)}
Absorb == Pure # {} /\ TLin(Pure) /\ UNCHANGED mvars
Lin(o) == Due(o) /\ Apply(o) /\ TLin({o})

Next ==
  \/ Absorb
  \/ /\ Pure = {}
     /\ \/ TInv /\ UNCHANGED mvars
        \/ TRes /\ UNCHANGED mvars
        \/ \E o \in pend : Lin(o)

Spec == Init /\ [][Next]_vars
=============================================================================

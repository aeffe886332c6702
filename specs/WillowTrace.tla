----------------------------- MODULE WillowTrace -----------------------------
(* Checks histories recorded from the real queue service against Willow.    *)
EXTENDS Willow, TraceBase

VARIABLES half,    \* undelivered items that were taken and not given back yet
          seen     \* [pending scan -> [can, must]]: what existed at some time, what existed all the time since its invocation

xvars == <<half, seen>>
vars == <<wvars, tid, l, pend, lin, xvars>>
V == Cfg.vals
Slack == Cfg.slack

Init == TInit /\ qs = << >> /\ ch = << >> /\ rules = << >> /\ ovs = << >> /\ half = {} /\ seen = << >>

C(op) == <<op.q, op.kv>>
Flying == pend \cup half \cup lin

(********************************* scans ***********************************)
Scans == {"channels", "listQueues"}
Shown(kind, q, qq, cc) == IF kind = "channels" THEN {c[2] : c \in {x \in DOMAIN cc : x[1] = q}} ELSE {<<n, qq[n]>> : n \in DOMAIN qq}
Begin(o) == LET x == Shown(Ops[o].op, Ops[o].q, qs, ch) IN [can |-> x, must |-> x]
(* the state changes: adapt what the pending scans may and must see *)
Watch(live) == seen' = [o \in {x \in live : Ops[x].op \in Scans} |->
                 LET x == Shown(Ops[o].op, Ops[o].q, qs', ch') IN
                 [can |-> seen[o].can \cup x, must |-> seen[o].must \cap x]]
Keep0 == seen' = seen

NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
ScanOk(op, w) ==
  LET rows == IF op.op = "channels" THEN Range(op.r.rows) ELSE {<<op.r.rows[i].q, op.r.rows[i].max>> : i \in 1..Len(op.r.rows)}
      sel(S) == IF op.op = "channels" THEN {kv \in S : Sat(V, op.query, "", kv)} ELSE S
      \* an empty channel may be shown until the operation that emptied it is answered, or soon after a time-out
      gone == IF op.op # "channels" THEN {} ELSE
                {Ops[p].kv : p \in {x \in 1..Len(Ops) : Ops[x].op = "enqueue" /\ Ops[x].q = op.q /\ Ops[x].tinv <= op.tres}}
      empty == {kv \in gone : \/ \E p \in Flying : Ops[p].op \in {"ack", "delChannel"} /\ C(Ops[p]) = <<op.q, kv>>
                              \/ Cfg.timeouts }
  IN /\ NoDup(op.r.rows)
     /\ rows \subseteq sel(w.can \cup empty)
     /\ sel(w.must) \subseteq rows

(*************************** answers without effect ************************)
Deleting(q, o) == \E d \in (pend \cup lin) \ {o} : Ops[d].op = "delQueue" /\ Ops[d].q = q
(* a channel is being removed: somebody deletes it or completes or fails its last item *)
Emptying(c, o) == \E d \in (pend \cup lin) \ {o} : Ops[d].op \in {"delChannel", "ack"} /\ C(Ops[d]) = c

PureOk(o) ==
  LET op == Ops[o] st == op.r.st IN
  CASE op.op = "createQueue" /\ st = "conflict" -> op.q \in DOMAIN qs \/ Deleting(op.q, o)
    [] op.op = "createQueue" /\ st = "http500"  -> op.max < -1
    [] op.op = "updateQueue" /\ st = "http500"  -> op.max < -1 /\ op.q \in DOMAIN qs
    [] op.op = "getQueue" /\ st = "ok"          -> op.q \in DOMAIN qs /\ op.r.row = [q |-> op.q, max |-> qs[op.q]]
    [] op.op \in {"getQueue", "updateQueue", "enqueue", "delChannel", "ack", "heartbeat", "dequeue"} /\ st = "missing"
         /\ op.q \notin DOMAIN qs               -> TRUE
    [] op.op \in {"getQueue", "updateQueue", "ack", "heartbeat", "channels", "delQueue"} /\ st = "conflict" -> Deleting(op.q, o)
    [] op.op \in {"enqueue", "dequeue", "delChannel", "ack", "heartbeat"} /\ st = "http500" -> Deleting(op.q, o) \/ (op.op = "enqueue" /\ Emptying(C(op), o))
    [] op.op = "delChannel" /\ st = "conflict"  -> Emptying(C(op), o)
    [] op.op = "delQueue" /\ st = "ok"          -> op.q \notin DOMAIN qs
    [] op.op = "enqueue" /\ st = "conflict"     -> op.q \in DOMAIN qs /\ ~Replaces(C(op)) /\ ~Room(V, C(op))
    [] op.op = "dequeue" /\ st = "gone"         -> TRUE       \* its client went away
    [] op.op = "dequeue" /\ st = "conflict"     -> op.q \notin DOMAIN qs \/ Deleting(op.q, o)
    [] op.op = "ack" /\ st = "missing"         -> ~IsRunning(C(op), op.id)
    \* no heartbeat before its consumer has it
    [] op.op = "heartbeat" /\ st = "missing"   -> ~Delivered(C(op), op.id)
                                                    \/ \E d \in lin : Ops[d].op = "dequeue" /\ Ops[d].r.st = "ok" /\ Ops[d].r.id = op.id
    [] op.op \in Scans /\ st = "ok"             -> More /\ Ev[l].e = "res" /\ Ev[l].o = o /\ ScanOk(op, seen[o])
    [] OTHER -> FALSE

(****************************** answers with one ***************************)
Same(it, r) == it.d = r.d /\ it.up = r.up /\ it.ra = r.ra /\ it.pos = r.pos /\ it.to = r.to
NewItem(op) == [d |-> op.d, up |-> op.up, ra |-> op.ra, pos |-> op.pos, to |-> op.to, rc |-> 0, at |-> op.tinv]

InTime(c, id, op) == IsRunning(c, id) => op.tinv <= Run(c)[id].hi + Run(c)[id].it.to + Slack

TakeBy(op, gb) ==
  LET c == <<op.q, op.r.kv>> IN
  /\ op.q \in DOMAIN qs
  /\ Sat(V, op.query, "", op.r.kv)
  /\ CanTake(V, c) /\ Same(Wait(c)[1], op.r)
  /\ Take(V, c, op.r.id, op.tinv, op.tres, gb)

Apply(o) ==
  LET op == Ops[o] st == op.r.st IN
  CASE op.op = "createQueue" /\ st = "ok" -> CreateQueue(op.q, op.max)
    [] op.op = "updateQueue" /\ st = "ok" -> UpdateQueue(op.q, op.max)
    [] op.op = "delQueue" /\ st = "ok"    -> op.q \in DOMAIN qs /\ DeleteQueue(op.q)
    [] op.op = "delChannel" /\ st = "ok"  -> DeleteChannel(C(op))
    [] op.op = "enqueue" /\ st = "ok"     -> Enqueue(V, C(op), NewItem(op))
    [] op.op = "dequeue" /\ st = "ok"     -> TakeBy(op, FALSE)
    [] op.op = "ack" /\ st = "ok"         -> InTime(C(op), op.id, op) /\ (IF op.passed THEN Complete(C(op), op.id) ELSE Fail(C(op), op.id, op.tinv))
    [] op.op = "heartbeat" /\ st = "ok"   -> InTime(C(op), op.id, op) /\ Heartbeat(C(op), op.id, op.tinv, op.tres)
    [] op.op = "rule" /\ st = "ok"        -> rules' = Lim!Put(rules, op.r.id, [kv |-> op.kv, limit |-> op.limit]) /\ UNCHANGED <<qs, ch, ovs>>
    [] op.op = "override" /\ st = "ok"    -> ovs' = Lim!Put(ovs, op.r.id, [rule |-> op.rule, kv |-> op.kv, limit |-> op.limit]) /\ UNCHANGED <<qs, ch, rules>>
    [] op.op = "delRule" /\ st = "ok"     -> rules' = Lim!Drop(rules, {op.rule}) /\ ovs' = Lim!Drop(ovs, {x \in DOMAIN ovs : ovs[x].rule = op.rule}) /\ UNCHANGED <<qs, ch>>
    [] OTHER -> FALSE

Pure == {o \in pend : PureOk(o)}
Absorb == Pure # {} /\ TLin(Pure) /\ UNCHANGED <<wvars, half>> /\ seen' = Lim!Drop(seen, Pure)

Wanted == More /\ (Need \/ Ev[l].e \in {"quiet", "stuck"})

Lin(o) ==
  /\ Wanted /\ o \in pend
  /\ Apply(o) /\ TLin({o})
  /\ half' = half /\ Watch(pend \ {o})

(* an item that could not be delivered: taken, then given back *)
LostTake(o) ==
  /\ Wanted /\ o \in pend /\ Ops[o].op = "dequeue" /\ Ops[o].r.st = "lost"
  /\ TakeBy(Ops[o], TRUE)
  /\ half' = half \cup {o} /\ pend' = pend \ {o} /\ UNCHANGED <<tid, l, lin>> /\ Watch(pend \ {o})
LostBack(o) ==
  /\ Wanted /\ o \in half
  \* the channel or queue was deleted meanwhile, or it goes back
  /\ LET c == <<Ops[o].q, Ops[o].r.kv>> IN
       IF Ops[o].r.id \in DOMAIN Run(c) /\ Run(c)[Ops[o].r.id].gb THEN GiveBack(c, Ops[o].r.id, Ops[o].tinv) ELSE UNCHANGED wvars
  /\ half' = half \ {o} /\ lin' = lin \cup {o} /\ UNCHANGED <<tid, l, pend>> /\ Watch(pend)

Timeout ==
  /\ Wanted
  /\ \E c \in Chs : \E id \in DOMAIN ch[c].run :
       Expire(c, id, Ev[l].t)
  /\ UNCHANGED <<tid, l, pend, lin, half>> /\ Watch(pend)

(* the service had time to settle: whoever still waits has nothing to wait for, and the counters are right *)
Settled(ev) ==
  /\ half = {}
  /\ \A o \in pend : /\ Ops[o].op = "dequeue" /\ Ops[o].q \in DOMAIN qs
                     /\ \A c \in Chs : (c[1] = Ops[o].q /\ Sat(V, Ops[o].query, "", c[2])) => ~CanTake(V, c)
  /\ \A c \in Chs : \A id \in DOMAIN ch[c].run : ev.t <= ch[c].run[id].hi + ch[c].run[id].it.to + Slack
  /\ ev.counted => LET cs == Counters IN
       {ev.rows[i] : i \in 1..Len(ev.rows)} = {[kv |-> k, n |-> cs[k]] : k \in DOMAIN cs}
  /\ ev.shown => {ev.chans[i] : i \in 1..Len(ev.chans)} = {[q |-> c[1], kv |-> c[2]] : c \in Chs}
Quiet == More /\ Ev[l].e = "quiet" /\ Settled(Ev[l]) /\ TEvent("quiet") /\ UNCHANGED <<wvars, xvars>>

Next ==
  \/ Absorb
  \/ /\ Pure = {}
     /\ \/ /\ TInv /\ UNCHANGED <<wvars, half>>
           /\ seen' = IF Ops[Ev[l].o].op \in Scans THEN Lim!Put(seen, Ev[l].o, Begin(Ev[l].o)) ELSE seen
        \/ TRes /\ UNCHANGED <<wvars, xvars>>
        \/ \E o \in pend : Lin(o)
        \/ \E o \in pend : LostTake(o)
        \/ \E o \in half : LostBack(o)
        \/ Timeout
        \/ Quiet

Spec == Init /\ [][Next]_vars
=============================================================================

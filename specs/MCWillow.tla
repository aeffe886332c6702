------------------------------- MODULE MCWillow -------------------------------
(* The queue service, exhaustively over a few items: what the operations of   *)
(* Willow.tla promise together.  Time is left out: any running item may time  *)
(* out at any moment.                                                         *)
EXTENDS Willow, TLC

CONSTANTS MaxItems, MaxLost, KVs, Caps, RuleKVs, RuleLims, Ups, Ras, Admin

V == ("1:1" :> [t |-> 1, n |-> 0]) @@ ("1:2" :> [t |-> 1, n |-> 1]) @@ ("13:q" :> [t |-> 13, n |-> 2])
     @@ ("13:true" :> [t |-> 13, n |-> 3]) @@ ("1024:" :> [t |-> 1024, n |-> 4])

KV1 == {"a" :> "1:1"}
KV2 == {"a" :> "1:1", "a" :> "1:2"}
RKV == {"a" :> "1024:"}
RKV2 == {"a" :> "1:1", "_willow_running" :> "1024:"}
None == {}
CapsQuick == {-1, 2}

Q == "q"
VARIABLES made,     \* how many items there were so far
          seen,     \* [item -> how often it reached a consumer]
          over,     \* items that are gone
          lost,     \* how many could not be delivered
          tame,     \* no limit changed since the first item
          last      \* the last operation and its item
vars == <<wvars, made, seen, over, lost, tame, last>>

Place(c, C, d) == {i \in 1..Len(C[c].wait) : C[c].wait[i].d = d} \cup {id \in DOMAIN C[c].run : C[c].run[id].it.d = d}
In(C) == UNION {{C[c].wait[i].d : i \in 1..Len(C[c].wait)} \cup {C[c].run[id].it.d : id \in DOMAIN C[c].run} : c \in DOMAIN C}

Init == /\ qs = << >> /\ ch = << >> /\ rules = << >> /\ ovs = << >>
        /\ made = 0 /\ seen = << >> /\ over = {} /\ lost = 0 /\ tame = TRUE /\ last = <<"none", 0>>

Note(op, d) == last' = <<op, d>> /\ over' = over \cup (In(ch) \ In(ch'))
Same == UNCHANGED <<made, seen, lost, tame>>
Setup == tame' = (tame /\ made = 0) /\ UNCHANGED <<made, seen, lost>>

It(d, up, ra, pos) == [d |-> d, up |-> up, ra |-> ra, pos |-> pos, to |-> 0, rc |-> 0, at |-> 0]
C(kv) == <<Q, kv>>

Next ==
  \/ \E n \in Caps : (CreateQueue(Q, n) \/ (Admin /\ UpdateQueue(Q, n))) /\ Setup /\ Note("admin", 0)
  \/ Admin /\ Q \in DOMAIN qs /\ DeleteQueue(Q) /\ Setup /\ Note("delete", 0)
  \/ Admin /\ \E c \in Chs : DeleteChannel(c) /\ Setup /\ Note("delete", 0)
  \/ \E kv \in RuleKVs, n \in RuleLims :
       /\ rules = << >> /\ made = 0
       /\ rules' = Lim!Put(rules, "r", [kv |-> kv, limit |-> n])
       /\ UNCHANGED <<qs, ch, ovs>> /\ Setup /\ Note("admin", 0)
  \/ /\ made < MaxItems
     /\ \E kv \in KVs, up \in Ups, ra \in Ras, pos \in {"front", "back"} :
          /\ (ra = 0 => pos = "back")
          /\ Enqueue(V, C(kv), It(made + 1, up, ra, pos))
     /\ made' = made + 1 /\ seen' = Lim!Put(seen, made + 1, 0) /\ UNCHANGED <<lost, tame>> /\ Note("enqueue", made + 1)
  \/ \E c \in Chs : \E gb \in {FALSE, TRUE} :
       /\ Wait(c) # << >> /\ (gb => lost < MaxLost)
       /\ LET d == Wait(c)[1].d IN
            /\ Take(V, c, d, 0, 0, gb)
            /\ seen' = [seen EXCEPT ![d] = @ + (IF gb THEN 0 ELSE 1)]
            /\ lost' = lost + (IF gb THEN 1 ELSE 0)
            /\ UNCHANGED <<made, tame>> /\ Note("take", d)
  \/ \E c \in Chs : \E id \in DOMAIN Run(c) :
       \/ GiveBack(c, id, 0) /\ Same /\ Note("back", id)
       \* only somebody who had it knows it
       \/ seen[id] > 0 /\ Complete(c, id) /\ Same /\ Note("complete", id)
       \/ seen[id] > 0 /\ Fail(c, id, 0) /\ Same /\ Note("fail", id)
       \/ Expire(c, id, 0) /\ Same /\ Note("fail", id)

Serve == \E c \in Chs :
           /\ Wait(c) # << >>
           /\ LET d == Wait(c)[1].d IN
                /\ Take(V, c, d, 0, 0, FALSE)
                /\ seen' = [seen EXCEPT ![d] = @ + 1] /\ UNCHANGED <<made, tame, lost>> /\ Note("take", d)
Finish == \E c \in Chs : \E id \in DOMAIN Run(c) :
           \/ GiveBack(c, id, 0) /\ Same /\ Note("back", id)
           \/ Expire(c, id, 0) /\ Same /\ Note("fail", id)

Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Serve) /\ WF_vars(Finish)

(* an item is in one place *)
Once == \A d \in In(ch) : Cardinality({c \in Chs : Place(c, ch, d) # {}}) = 1 /\ \A c \in Chs : Cardinality(Place(c, ch, d)) <= 1
(* what is gone stays away, what was accepted and is not gone is there *)
Gone == over \cap In(ch) = {}
Kept == In(ch) \cup over = 1..made
(* nobody gets an item more often than its retries allow *)
Tries == \A c \in Chs : /\ \A i \in 1..Len(ch[c].wait) : ch[c].wait[i].rc <= ch[c].wait[i].ra /\ seen[ch[c].wait[i].d] <= ch[c].wait[i].rc
                        /\ \A id \in DOMAIN ch[c].run : ch[c].run[id].it.rc <= ch[c].run[id].it.ra
(* first come, first served *)
Order == \A c \in Chs : \A i, j \in 1..Len(ch[c].wait) :
           LET x == ch[c].wait[i].d y == ch[c].wait[j].d IN (x < y /\ seen[x] = 0 /\ seen[y] = 0) => i < j
NoOvertaking == lost = 0 => \A c \in Chs : \A i \in 1..Len(ch[c].wait) : \A id \in DOMAIN ch[c].run :
           LET x == ch[c].wait[i].d y == ch[c].run[id].it.d IN (seen[x] = 0 /\ seen[y] = 1 /\ ~ch[c].run[id].gb) => y < x
(* the limits hold *)
CapHolds == \A q \in DOMAIN qs : tame => (qs[q] = -1 \/ Held(q) <= qs[q])
RulesHold == \A r \in DOMAIN rules, c \in Chs :
               (tame /\ Applies(V, rules[r].kv, RunKey(c)) /\ Run(c) # << >>) => Lim!Total(DOMAIN rules[r].kv, RunKey(c)) <= rules[r].limit

(* an item disappears for a reason *)
Reasons == [][LET gone == In(ch) \ In(ch') d == last'[2] IN
              gone # {} =>
                CASE last'[1] = "complete" -> gone = {d}
                  [] last'[1] = "delete"   -> TRUE
                  [] last'[1] = "enqueue"  -> \E c \in Chs : Wait(c) # << >> /\ gone = {Wait(c)[Len(Wait(c))].d} /\ Wait(c)[Len(Wait(c))].up
                  [] last'[1] \in {"fail", "back"} ->
                       \E c \in Chs : /\ d \in DOMAIN Run(c)
                         /\ LET it == Run(c)[d].it IN
                            \/ last'[1] = "fail" /\ gone = {d} /\ it.rc = it.ra
                            \/ gone = {d} /\ it.up /\ Wait(c) # << >>
                            \/ last'[1] = "fail" /\ it.pos = "back" /\ Wait(c) # << >> /\ gone = {Wait(c)[Len(Wait(c))].d} /\ Wait(c)[Len(Wait(c))].up
                  [] OTHER -> FALSE]_vars
(* who waits is served, with consumers around and limits that leave room *)
Progress == \A d \in 1..MaxItems : (d \in In(ch)) ~> (d \in over)
=============================================================================

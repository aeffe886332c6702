------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* What every trace specification shares.                                  *)
(*                                                                         *)
(* The conformance driver records histories of the real code: a list `ev'  *)
(* of events (inv, res, stuck, ... of operation o at time t, microseconds) *)
(* and a table `ops' of operations with their arguments and answers.  A    *)
(* history is accepted when some behaviour of the specification explains   *)
(* all of it: each operation takes effect at one instant between its       *)
(* invocation and its answer.  TLC searches all histories of a file at     *)
(* once (`tid' is chosen initially) and remembers how far each one got.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Hs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid,   \* which history
          l,     \* the next event
          pend,  \* invoked operations that did not take effect yet
          lin    \* operations that took effect and did not answer yet

tvars == <<tid, l, pend, lin>>

Ev   == Hs[tid].ev
Ops  == Hs[tid].ops
Cfg  == Hs[tid].cfg
More == l <= Len(Ev)

TInit == tid \in 1..Len(Hs) /\ l = 1 /\ pend = {} /\ lin = {} /\ TLCSet(tid, 0)

TInv == /\ More /\ Ev[l].e = "inv"
        /\ pend' = pend \cup {Ev[l].o} /\ l' = l + 1
        /\ UNCHANGED <<tid, lin>>

TRes == /\ More /\ Ev[l].e = "res" /\ Ev[l].o \in lin
        /\ lin' = lin \ {Ev[l].o} /\ l' = l + 1
        /\ UNCHANGED <<tid, pend>>

(* an answer is due and not explained yet: only then operations need to take effect *)
Need == More /\ Ev[l].e = "res" /\ Ev[l].o \notin lin
Due(o) == Need /\ o \in pend

TLin(S) == /\ pend' = pend \ S /\ lin' = lin \cup S
           /\ UNCHANGED <<tid, l>>

(* consume an event of another kind *)
TEvent(e) == /\ More /\ Ev[l].e = e /\ l' = l + 1 /\ UNCHANGED <<tid, pend, lin>>

(* a constraint, always TRUE *)
Track == TLCSet(tid, IF TLCGet(tid) > l THEN TLCGet(tid) ELSE l)

Rejected == {i \in 1..Len(Hs) : TLCGet(i) <= Len(Hs[i].ev)}
Verdict ==
  /\ PrintT(<<"CHECKED", Len(Hs), "REJECTED", Cardinality(Rejected)>>)
  /\ \A i \in Rejected : PrintT(<<"REJECT", Hs[i].name, "at", TLCGet(i), "of", Len(Hs[i].ev)>>)

Range(f) == {f[x] : x \in DOMAIN f}
=============================================================================

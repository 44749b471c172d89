--------------------------- MODULE RegistryTrace ---------------------------
(* Conformance of executions of the real code: a history recorded by drv/mt  *)
(* (calls, returns, destructions of several threads, one after another) is    *)
(* accepted iff each call can be given a moment between its start and its     *)
(* return at which it is one step of Registry, with destructions where they   *)
(* happened. Data races, accesses to freed memory, deadlocks and crashes are  *)
(* no steps at all.                                                           *)
EXTENDS Registry, Sequences, Json, IOUtils, TLC

Histories == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Histories)
MaxObj == 12
TObjs == 1..MaxObj

VARIABLES h, l, pend
tvars == << rvars, h, l, pend >>
None == [op |-> "none", o |-> 0, done |-> FALSE]
Ev == Histories[h].h

TInit == /\ RInit
         /\ h \in 1..N
         /\ l = 1
         /\ pend = [t \in 0..3 |-> None]

Advance == l' = l + 1 /\ h' = h
Stay == UNCHANGED << l, h >>
FieldOf(op) == IF op \in {"A", "B"} THEN op ELSE "Q"

\* the effect of a call
Effect(op, o) == CASE op \in {"A", "B"} -> o \in Objs /\ Make(op, o)
                   [] op = "q" -> /\ o \in Objs
                                  /\ IF reg["Q"] = 0 THEN Make("Q", o) ELSE reg["Q"] = o /\ UNCHANGED rvars \* the rationals stay forever
                   [] op = "c" -> Copy(o)
                   [] op = "d" -> Drop(o)
                   [] OTHER -> Use(o)     \* u, e, m

TNext == /\ l <= Len(Ev)
         /\ \/ /\ Ev[l].e = "I"
               /\ pend' = [pend EXCEPT ![Ev[l].t] = [op |-> Ev[l].op, o |-> Ev[l].o, done |-> FALSE]]
               /\ Advance /\ UNCHANGED rvars
            \/ \E t \in 0..3 : /\ pend[t].op # "none" /\ ~ pend[t].done
                               /\ Effect(pend[t].op, pend[t].o)
                               /\ pend' = [pend EXCEPT ![t].done = TRUE]
                               /\ Stay
            \/ /\ Ev[l].e = "R"
               /\ pend[Ev[l].t].done /\ pend[Ev[l].t].op = Ev[l].op /\ pend[Ev[l].t].o = Ev[l].o
               /\ pend' = [pend EXCEPT ![Ev[l].t] = None]
               /\ Advance /\ UNCHANGED rvars
            \/ /\ Ev[l].e = "O" /\ Ev[l].o \in Objs /\ Make("A", Ev[l].o) /\ Advance /\ UNCHANGED pend
            \/ /\ Ev[l].e = "Q" /\ Ev[l].o \in Objs /\ Make("Q", Ev[l].o) /\ Advance /\ UNCHANGED pend
            \/ /\ Ev[l].e = "D" /\ Ev[l].o \in Objs /\ Destroy(Ev[l].o) /\ Advance /\ UNCHANGED pend
            \/ /\ Ev[l].e = "E"   \* everything has been dropped: only the rationals are left
               /\ \A o \in Objs : fld[o] \notin {"none", "Q"} => o \in dead
               /\ Ev[l].o = IF reg["Q"] = 0 THEN 0 ELSE 1
               /\ Advance /\ UNCHANGED << rvars, pend >>
TSpec == TInit /\ [][TNext]_tvars

\* histories that were followed to their end; the farthest position in the others
Reached == IF l > Len(Ev) THEN TLCSet(1, TLCGet(1) \cup {h}) ELSE TRUE
ASSUME TLCSet(1, {})
Accepted == LET r == TLCGet(1) IN PrintT(<<"REACHED", Cardinality(r), N, (1..N) \ r>>) /\ Cardinality(r) = N
=============================================================================

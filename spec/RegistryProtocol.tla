-------------------------- MODULE RegistryProtocol --------------------------
(* The protocol by which renf_class.cpp implements Registry, in steps of one  *)
(* atomic access each: a request creates a candidate, looks for an equal      *)
(* field under the lock, and counts a reference before it releases the lock;  *)
(* a release must hold the lock to drop what could be the last reference.     *)
(* TLC checks that each behaviour of this protocol is one of Registry, for    *)
(* all interleavings. Protocol = "unlocked" is how the code was before        *)
(* "fix: drop the last reference under the lock"; it must fail.               *)
EXTENDS Integers, FiniteSets, Sequences

CONSTANTS Fields, Objs, Threads, MaxHandles, Protocol
VARIABLES lock,   \* the thread that holds fields_mutex, 0 if none
          table,  \* the unordered_set "fields"
          rc,     \* references, without the three internal ones
          st,     \* object -> unused, fresh (not in the table yet), live, freed
          of,     \* object -> field
          hold,   \* thread -> object -> handles
          pc, cur, tmp, seen,
          bad     \* a freed object was accessed, or an assertion failed
vars == << lock, table, rc, st, of, hold, pc, cur, tmp, seen, bad >>

Init == /\ lock = 0
        /\ table = [f \in Fields |-> 0]
        /\ rc = [o \in Objs |-> 0]
        /\ st = [o \in Objs |-> "unused"]
        /\ of = [o \in Objs |-> "none"]
        /\ hold = [t \in Threads |-> [o \in Objs |-> 0]]
        /\ pc = [t \in Threads |-> "idle"]
        /\ cur = [t \in Threads |-> 0]
        /\ tmp = [t \in Threads |-> 0]
        /\ seen = [t \in Threads |-> 0]
        /\ bad = FALSE

Goto(t, p) == pc' = [pc EXCEPT ![t] = p]
Access(o) == bad' = (bad \/ st[o] = "freed")
Smallest(o) == \A p \in Objs : st[p] = "unused" => o <= p
RECURSIVE Sum(_, _)
Sum(g, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + Sum(g, S \ {x})

\* ---- renf_class::make
Request(t, f) == /\ pc[t] = "idle"
                 /\ Sum(hold[t], Objs) < MaxHandles
                 /\ \E o \in Objs : /\ st[o] = "unused" /\ Smallest(o)
                                    /\ st' = [st EXCEPT ![o] = "fresh"]
                                    /\ of' = [of EXCEPT ![o] = f]
                                    /\ tmp' = [tmp EXCEPT ![t] = o]
                 /\ Goto(t, "m_lock")
                 /\ UNCHANGED << lock, table, rc, hold, cur, seen, bad >>
MLock(t) == /\ pc[t] = "m_lock" /\ lock = 0
            /\ lock' = t
            /\ Goto(t, "m_find")
            /\ UNCHANGED << table, rc, st, of, hold, cur, tmp, seen, bad >>
MFind(t) == /\ pc[t] = "m_find"
            /\ LET f == of[tmp[t]] IN
               IF table[f] = 0
               THEN /\ table' = [table EXCEPT ![f] = tmp[t]]
                    /\ st' = [st EXCEPT ![tmp[t]] = "live"]
                    /\ cur' = [cur EXCEPT ![t] = tmp[t]]
                    /\ UNCHANGED << of, bad >>
               ELSE /\ Access(table[f])
                    /\ cur' = [cur EXCEPT ![t] = table[f]]
                    /\ st' = [st EXCEPT ![tmp[t]] = "unused"]
                    /\ of' = [of EXCEPT ![tmp[t]] = "none"]
                    /\ UNCHANGED table
            /\ tmp' = [tmp EXCEPT ![t] = 0]
            /\ Goto(t, "m_ref")
            /\ UNCHANGED << lock, rc, hold, seen >>
MRef(t) == /\ pc[t] = "m_ref"
           /\ Access(cur[t])
           /\ rc' = [rc EXCEPT ![cur[t]] = @ + 1]
           /\ Goto(t, "m_unlock")
           /\ UNCHANGED << lock, table, st, of, hold, cur, tmp, seen >>
MUnlock(t) == /\ pc[t] = "m_unlock"
              /\ lock' = 0
              /\ hold' = [hold EXCEPT ![t][cur[t]] = @ + 1]
              /\ cur' = [cur EXCEPT ![t] = 0]
              /\ Goto(t, "idle")
              /\ UNCHANGED << table, rc, st, of, tmp, seen, bad >>

\* ---- intrusive_ptr_add_ref
Duplicate(t, o) == /\ pc[t] = "idle" /\ hold[t][o] > 0 /\ Sum(hold[t], Objs) < MaxHandles
                   /\ Access(o)
                   /\ rc' = [rc EXCEPT ![o] = @ + 1]
                   /\ hold' = [hold EXCEPT ![t][o] = @ + 1]
                   /\ UNCHANGED << lock, table, st, of, pc, cur, tmp, seen >>
\* a handle is given to another thread
Pass(t, u, o) == /\ pc[t] = "idle" /\ pc[u] = "idle" /\ t # u
                 /\ hold[t][o] > 0 /\ Sum(hold[u], Objs) < MaxHandles
                 /\ hold' = [hold EXCEPT ![t][o] = @ - 1, ![u][o] = @ + 1]
                 /\ UNCHANGED << lock, table, rc, st, of, pc, cur, tmp, seen, bad >>

\* ---- intrusive_ptr_release
Release(t, o) == /\ pc[t] = "idle" /\ hold[t][o] > 0
                 /\ hold' = [hold EXCEPT ![t][o] = @ - 1]
                 /\ cur' = [cur EXCEPT ![t] = o]
                 /\ Goto(t, IF Protocol = "locked" THEN "r_load" ELSE "u_dec")
                 /\ UNCHANGED << lock, table, rc, st, of, tmp, seen, bad >>
RLoad(t) == /\ pc[t] = "r_load"
            /\ Access(cur[t])
            /\ seen' = [seen EXCEPT ![t] = rc[cur[t]]]
            /\ Goto(t, IF rc[cur[t]] = 1 THEN "r_lock" ELSE "r_cas")
            /\ UNCHANGED << lock, table, rc, st, of, hold, cur, tmp >>
RCas(t) == /\ pc[t] = "r_cas"
           /\ Access(cur[t])
           /\ IF rc[cur[t]] = seen[t]
              THEN /\ rc' = [rc EXCEPT ![cur[t]] = @ - 1]
                   /\ Goto(t, "idle")
                   /\ cur' = [cur EXCEPT ![t] = 0]
                   /\ seen' = [seen EXCEPT ![t] = 0]
              ELSE /\ seen' = [seen EXCEPT ![t] = rc[cur[t]]]
                   /\ Goto(t, IF rc[cur[t]] = 1 THEN "r_lock" ELSE "r_cas")
                   /\ UNCHANGED << rc, cur >>
           /\ UNCHANGED << lock, table, st, of, hold, tmp >>
RLock(t) == /\ pc[t] = "r_lock" /\ lock = 0
            /\ lock' = t
            /\ seen' = [seen EXCEPT ![t] = 0]
            /\ Goto(t, "r_dec")
            /\ UNCHANGED << table, rc, st, of, hold, cur, tmp, bad >>
RDec(t) == /\ pc[t] = "r_dec"
           /\ Access(cur[t])
           /\ rc' = [rc EXCEPT ![cur[t]] = @ - 1]
           /\ Goto(t, IF rc[cur[t]] = 1 THEN "r_erase" ELSE "r_unlock")
           /\ UNCHANGED << lock, table, st, of, hold, cur, tmp, seen >>
RErase(t) == /\ pc[t] = "r_erase"
             /\ bad' = (bad \/ st[cur[t]] = "freed" \/ table[of[cur[t]]] # cur[t])
             /\ table' = [table EXCEPT ![of[cur[t]]] = 0]
             /\ Goto(t, "r_free")
             /\ UNCHANGED << lock, rc, st, of, hold, cur, tmp, seen >>
RFree(t) == /\ pc[t] = "r_free"
            /\ Access(cur[t])
            /\ st' = [st EXCEPT ![cur[t]] = "freed"]
            /\ Goto(t, "r_unlock")
            /\ UNCHANGED << lock, table, rc, of, hold, cur, tmp, seen >>
RUnlock(t) == /\ pc[t] = "r_unlock"
              /\ lock' = 0
              /\ cur' = [cur EXCEPT ![t] = 0]
              /\ Goto(t, "idle")
              /\ UNCHANGED << table, rc, st, of, hold, tmp, seen, bad >>

\* ---- intrusive_ptr_release as it was: the count is dropped without the lock
UDec(t) == /\ pc[t] = "u_dec"
           /\ Access(cur[t])
           /\ rc' = [rc EXCEPT ![cur[t]] = @ - 1]
           /\ Goto(t, IF rc[cur[t]] = 1 THEN "u_lock" ELSE "u_done")
           /\ UNCHANGED << lock, table, st, of, hold, cur, tmp, seen >>
UDone(t) == /\ pc[t] = "u_done"
            /\ cur' = [cur EXCEPT ![t] = 0]
            /\ Goto(t, "idle")
            /\ UNCHANGED << lock, table, rc, st, of, hold, tmp, seen, bad >>
ULock(t) == /\ pc[t] = "u_lock" /\ lock = 0
            /\ lock' = t
            /\ Goto(t, "r_erase")
            /\ UNCHANGED << table, rc, st, of, hold, cur, tmp, seen, bad >>

Next == \E t \in Threads :
           \/ \E f \in Fields : Request(t, f)
           \/ MLock(t) \/ MFind(t) \/ MRef(t) \/ MUnlock(t)
           \/ \E o \in Objs : Duplicate(t, o) \/ Release(t, o) \/ \E u \in Threads : Pass(t, u, o)
           \/ RLoad(t) \/ RCas(t) \/ RLock(t) \/ RDec(t) \/ RErase(t) \/ RFree(t) \/ RUnlock(t)
           \/ UDec(t) \/ UDone(t) \/ ULock(t)
Spec == Init /\ [][Next]_vars

NoBadAccess == ~bad
\* when nobody has a handle and nothing is going on, nothing is left
Idle == \A t \in Threads : pc[t] = "idle"
NoLeak == Idle /\ (\A t \in Threads : \A o \in Objs : hold[t][o] = 0)
          => lock = 0 /\ \A o \in Objs : st[o] \in {"unused", "freed"}
\* a thread that waits for the lock waits for one that will release it
NoDeadlock == lock # 0 => pc[lock] \in {"m_find", "m_ref", "m_unlock", "r_dec", "r_erase", "r_free", "r_unlock"}

\* Registry, seen through this protocol
Given(o) == st[o] = "freed" \/ (st[o] = "live" /\ ~ \E t \in Threads : pc[t] = "m_ref" /\ cur[t] = o /\ rc[o] = 0)
Abs == INSTANCE Registry WITH
         reg <- [f \in Fields |-> IF table[f] # 0 /\ rc[table[f]] > 0 THEN table[f] ELSE 0],
         cnt <- rc,
         fld <- [o \in Objs |-> IF Given(o) THEN of[o] ELSE "none"],
         dead <- {o \in Objs : st[o] = "freed"}
Refines == Abs!RSpec
UniqueParents == Abs!UniqueParents
AliveWhileUsed == Abs!AliveWhileUsed
=============================================================================

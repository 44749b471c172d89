------------------------------ MODULE Registry ------------------------------
(* What the registry of number fields promises to its users, seen from      *)
(* outside: there is at most one field object for each field that is in use, *)
(* everybody who asks for the field gets it, and it is destroyed (once) only *)
(* when nobody uses it anymore. One operation is one step.                   *)
EXTENDS Integers, FiniteSets

CONSTANTS Fields, Objs
VARIABLES reg,  \* field -> the object everybody gets, 0 if there is none
          cnt,  \* object -> number of handles (and elements) in existence
          fld,  \* object -> its field; "none" if the object was not handed out yet
          dead  \* destroyed objects
rvars == << reg, cnt, fld, dead >>

RInit == /\ reg = [f \in Fields |-> 0]
         /\ cnt = [o \in Objs |-> 0]
         /\ fld = [o \in Objs |-> "none"]
         /\ dead = {}

\* somebody asks for f and gets o
Make(f, o) == \/ /\ reg[f] = o
                 /\ cnt' = [cnt EXCEPT ![o] = @ + 1]
                 /\ UNCHANGED << reg, fld, dead >>
              \/ /\ reg[f] = 0
                 /\ o \in Objs \ dead
                 /\ fld[o] \in {"none", f}
                 /\ cnt[o] = 0
                 /\ reg' = [reg EXCEPT ![f] = o]
                 /\ fld' = [fld EXCEPT ![o] = f]
                 /\ cnt' = [cnt EXCEPT ![o] = 1]
                 /\ UNCHANGED dead
\* a handle is copied, used, dropped
Copy(o) == /\ cnt[o] > 0
           /\ cnt' = [cnt EXCEPT ![o] = @ + 1]
           /\ UNCHANGED << reg, fld, dead >>
Use(o) == cnt[o] > 0 /\ o \notin dead /\ UNCHANGED rvars
Drop(o) == /\ cnt[o] > 0
           /\ cnt' = [cnt EXCEPT ![o] = @ - 1]
           /\ reg' = IF cnt[o] = 1 THEN [reg EXCEPT ![fld[o]] = 0] ELSE reg
           /\ UNCHANGED << fld, dead >>
\* an object nobody uses is destroyed
Destroy(o) == /\ cnt[o] = 0
              /\ fld[o] # "none"
              /\ o \notin dead
              /\ dead' = dead \cup {o}
              /\ UNCHANGED << reg, cnt, fld >>

RNext == \E o \in Objs : \/ \E f \in Fields : Make(f, o)
                         \/ Copy(o) \/ Drop(o) \/ Destroy(o)
RSpec == RInit /\ [][RNext]_rvars

\* consequences
UniqueParents == \A o, p \in Objs : cnt[o] > 0 /\ cnt[p] > 0 /\ fld[o] = fld[p] => o = p
AliveWhileUsed == \A o \in Objs : cnt[o] > 0 => o \notin dead
Registered == \A f \in Fields : \A o \in Objs : reg[f] = o <=> (cnt[o] > 0 /\ fld[o] = f)
=============================================================================

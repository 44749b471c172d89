---------------------------- MODULE EAnticTrace ----------------------------
(* Conformance: a recorded execution is accepted iff every event is a step   *)
(* of EAntic. There is exactly one way to follow a trace, so a trace that is *)
(* not followed to its end is not a behaviour of the specification.          *)
EXTENDS EAntic, Json, IOUtils, TLC

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
vars == << F, R, K, S, H, Q, l >>

TInit == l = 1 /\ Init(Trace[1].q)
TNext == /\ l <= Len(Trace)
         /\ Trace[l].op # "crash"         \* the process died or hung here
         /\ Step(Trace[l])
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars

\* the number of accepted events
Accepted == LET d == TLCGet("stats").diameter
            IN PrintT(<<"ACCEPTED", d - 1, Len(Trace)>>) /\ d - 1 = Len(Trace)
=============================================================================

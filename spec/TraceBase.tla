----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Common machinery of all trace specifications: the recorded trace, the   *)
(* position in it, and acceptance by the furthest position reached (trace  *)
(* specifications with internal steps branch, so the diameter is no        *)
(* measure).  Run with one worker.                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json

VARIABLE l                    \* index of the next event to explain

Trace == ndJsonDeserialize(IOEnv.TRACE)
Last  == Len(Trace)
Ev    == Trace[l]

Is(e) == l <= Last /\ Trace[l].e = e /\ l' = l + 1

ASSUME TLCSet(1, 0)

\* Used as a CONSTRAINT: remember the furthest position.
Furthest == IF l > TLCGet(1) THEN TLCSet(1, l) ELSE TRUE

\* Used as the POSTCONDITION.  The driver script reads the printed line.
Accepted == PrintT(<<"FURTHEST", TLCGet(1), Last>>)

Range(s) == {s[i] : i \in 1..Len(s)}
=============================================================================

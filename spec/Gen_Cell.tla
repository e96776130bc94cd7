------------------------------ MODULE Gen_Cell ------------------------------
(***************************************************************************)
(* Behaviours of Cell for replay: the calls each thread makes, with        *)
(* 64-bit operands around every boundary.  Run with -simulate; one         *)
(* scenario is printed per behaviour.                                      *)
(***************************************************************************)
EXTENDS Cell, Json, FiniteSets

CONSTANTS Depth

VARIABLES init, hist, out

M == 65535
Boundary ==
  { <<0,0,0,0>>, <<1,0,0,0>>, <<2,0,0,0>>, <<M,0,0,0>>, <<0,1,0,0>>, <<M,M,0,0>>,
    <<0,0,1,0>>, <<1,0,1,0>>, <<M,M,M,32767>>, <<0,0,0,32768>>, <<1,0,0,32768>>,
    <<M,M,M,M>>, <<M-1,M,M,M>>, <<0,0,0,M>>, <<M,M,32767,0>>, <<12345,6789,4321,99>> }

GInit == /\ init \in Boundary
         /\ hist = <<>> /\ out = FALSE
         /\ CellInit(init)

GCall(t) == \E op \in OpNames : \E a \in IF op \in {"add", "sub", "set"} THEN Boundary ELSE {Zero} :
              /\ Call(t, op, a)
              /\ hist' = Append(hist, [t |-> t, op |-> op, a |-> a])

GNext == /\ Len(hist) < Depth
         /\ UNCHANGED <<init, out>>
         /\ \E t \in Threads :
              \/ GCall(t)
              \/ Lin(t) /\ UNCHANGED hist
              \/ pend[t].st = "done" /\ Ret(t, pend[t].ret) /\ UNCHANGED hist

\* One successor only, so that TLC's simulator prints each scenario once.
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ PrintT("@@" \o ToJson([init |-> init, kind |-> Kind, calls |-> hist]))
        /\ UNCHANGED <<val, pend, init, hist>>

GSpec == GInit /\ [][GNext \/ Emit]_<<val, pend, init, hist, out>>
=============================================================================

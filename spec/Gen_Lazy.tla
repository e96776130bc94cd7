------------------------------ MODULE Gen_Lazy ------------------------------
(***************************************************************************)
(* Steps for controlled threads: operations, and the moment at which the   *)
(* running initializer is let go.  Internal steps run when enabled.        *)
(***************************************************************************)
EXTENDS Lazy, Json
CONSTANTS Depth, Ops
VARIABLES hist, out
gv == <<cell, obj, addr, pend, hist, out>>

GInit == LazyInit /\ hist = <<>> /\ out = FALSE
Internal == /\ \E t \in Threads :
                 \/ Lin(t)
                 \/ InitStart(t, 1)
                 \/ pend[t].st = "done" /\ Ret(t, pend[t].ret, 0)
            /\ UNCHANGED <<hist, out>>
Step(t) == \E op \in Ops : Call(t, op) /\ hist' = Append(hist, [t |-> t, op |-> op])
Release(t) == \E how \in {"ok", "panic"} :
                InitEnd(t, how) /\ hist' = Append(hist, [t |-> t, op |-> "release", how |-> how])
GNext == \/ Internal
         \/ ~ENABLED Internal /\ Len(hist) < Depth /\ UNCHANGED out /\ \E t \in Threads : Step(t) \/ Release(t)
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE /\ ~ENABLED Internal
        /\ PrintT("@@" \o ToJson([steps |-> hist]))
        /\ UNCHANGED <<cell, obj, addr, pend, hist>>
GSpec == GInit /\ [][GNext \/ Emit]_gv
=============================================================================

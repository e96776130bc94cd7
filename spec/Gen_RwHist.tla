----------------------------- MODULE Gen_RwHist -----------------------------
EXTENDS RwHist, Json
CONSTANTS Depth, Sizes, Shapes
VARIABLES hist, out
\* The data itself is made up by the scenario runner: a shape and a serial number.
GInit == \E n \in Sizes : RwInit(n) /\ hist = <<>> /\ out = FALSE
LenOf(sh) == CASE sh = "short" -> size - 1 [] sh = "long" -> size + 1 [] sh = "empty" -> 0 [] OTHER -> size
GUpd(t) == \E sh \in Shapes :
             /\ UpdCall(t, IF LenOf(sh) = 0 THEN <<>> ELSE << <<LenOf(sh), Len(hist) + 1>> >>)
             /\ hist' = Append(hist, [t |-> t, op |-> "update", shape |-> sh])
GLoad(t) == \E o \in {"load", "entry"} : LoadCall(t) /\ hist' = Append(hist, [t |-> t, op |-> o, shape |-> "-"])
GNext == /\ Len(hist) < Depth /\ UNCHANGED out
         /\ \/ \E t \in Threads : GUpd(t) \/ GLoad(t)
            \/ UNCHANGED hist /\ Lin
            \/ \E t \in Threads : UNCHANGED hist /\ \/ pend[t].st = "updated" /\ UpdRet(t, pend[t].ok)
                                                    \/ pend[t].st = "loaded" /\ LoadRet(t, pend[t].r)
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ PrintT("@@" \o ToJson([size |-> size, calls |-> hist]))
        /\ UNCHANGED <<rwvars, hist>>
GSpec == GInit /\ [][GNext \/ Emit]_<<rwvars, hist, out>>
=============================================================================

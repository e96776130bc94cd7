------------------------------ MODULE Gen_Handle ------------------------------
EXTENDS Handle, Json
CONSTANTS Depth, MaxIds, Types, Places
VARIABLES hist, out, ids
gv == <<live, hist, out, ids>>
GInit == HInit /\ hist = <<>> /\ out = FALSE /\ ids = 0
Fresh(ty) == CASE ty \in {"counter", "gauge"} -> "0" [] OTHER -> ""
GAdd == /\ ids < MaxIds /\ ids' = ids + 1
        /\ \E ty \in Types, p \in Places :
             /\ HAdd(ids + 1, ty, IF ty = "probe" THEN <<TRUE, "none", "none">> ELSE Fresh(ty))
             /\ hist' = Append(hist, [op |-> "add", i |-> ids + 1, a |-> ty, b |-> p])
GSet == /\ UNCHANGED <<ids, live>>
        /\ \E i \in DOMAIN live : \E v \in 1..6 :
             hist' = Append(hist, [op |-> "set", i |-> i, a |-> ToString(v), b |-> "-"])
GStatic == /\ UNCHANGED <<ids, live>>
           /\ \E i \in 101..105, v \in 1..6 : hist' = Append(hist, [op |-> "set", i |-> i, a |-> ToString(v), b |-> "-"])
GDrop == /\ UNCHANGED ids
         /\ \E i \in DOMAIN live : HDrop(i) /\ hist' = Append(hist, [op |-> "drop", i |-> i, a |-> "-", b |-> "-"])
GNext == Len(hist) < Depth /\ UNCHANGED out /\ (GAdd \/ GSet \/ GStatic \/ GDrop)
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ PrintT("@@" \o ToJson([steps |-> hist])) /\ UNCHANGED <<live, hist, ids>>
GSpec == GInit /\ [][GNext \/ Emit]_gv
=============================================================================

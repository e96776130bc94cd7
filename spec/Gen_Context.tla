----------------------------- MODULE Gen_Context -----------------------------
EXTENDS Context, Json
CONSTANTS Depth, MaxAttached, Types, RefTypes     \* RefTypes: can only be offered by reference
VARIABLES hist, out
gv == <<want, got, attached, own, made, hist, out>>
Mans(ty) == IF ty \in RefTypes THEN {"ref"} ELSE {"value", "ref"}
GInit == CxInit /\ hist = <<>> /\ out = FALSE
Id == Len(hist) + 1
GAttach == /\ want.man = "-" /\ Len(hist) < MaxAttached
           /\ \E ty \in Types \ RefTypes :
                /\ Attach([man |-> "ref", ty |-> ty, id |-> Id])
                /\ hist' = Append(hist, [op |-> "attach", man |-> "ref", ty |-> ty, how |-> "-"])
           /\ UNCHANGED <<want, got, own, made>>
GRequest == /\ want.man = "-"
            /\ \E ty \in Types : \E man \in Mans(ty) :
                 Request(man, ty) /\ hist' = Append(hist, [op |-> "request", man |-> man, ty |-> ty, how |-> "-"])
GOffer == /\ want.man # "-"
          /\ \E ty \in Types : \E man \in Mans(ty) :
               \/ \E how \in {"plain", "with"} :
                    /\ LET o == [man |-> man, ty |-> ty, id |-> Id]
                       IN own' = Append(own, o) /\ made' = Append(made, o)
                          /\ got' = (IF Accepts(man, ty) THEN <<Id>> ELSE got)
                    /\ UNCHANGED <<want, attached>>
                    /\ hist' = Append(hist, [op |-> "offer", man |-> man, ty |-> ty, how |-> how])
               \/ /\ Ask(man, ty, Accepts(man, ty))
                  /\ hist' = Append(hist, [op |-> "ask", man |-> man, ty |-> ty, how |-> "-"])
GNext == Len(hist) < Depth /\ UNCHANGED out /\ (GAttach \/ GRequest \/ GOffer)
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE /\ want.man # "-"
        /\ PrintT("@@" \o ToJson([steps |-> hist])) /\ UNCHANGED <<cxvars, hist>>
GSpec == GInit /\ [][GNext \/ Emit]_gv
=============================================================================

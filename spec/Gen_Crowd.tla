------------------------------- MODULE Gen_Crowd -------------------------------
(* Crowds in units of Unit metrics (give or take a few, drawn later). *)
EXTENDS Crowd, TLC, Json
CONSTANTS Top, Depth
VARIABLES hist, top, out
gv == <<runs, hist, top, out>>
GInit == CInit /\ hist = <<>> /\ top = 0 /\ out = FALSE
GCome == \E n \in 1..Top : /\ top + n <= 3 * Top /\ Come(top + 1, top + n) /\ top' = top + n
                           /\ hist' = Append(hist, [op |-> "come", lo |-> top + 1, hi |-> top + n])
GGo == \E i \in DOMAIN runs : \E lo \in runs[i][1]..runs[i][2] : \E hi \in lo..runs[i][2] :
         Go(lo, hi) /\ top' = top /\ hist' = Append(hist, [op |-> "go", lo |-> lo, hi |-> hi])
GNext == Len(hist) < Depth /\ UNCHANGED out /\ (GCome \/ GGo)
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ PrintT("@@" \o ToJson([steps |-> hist])) /\ UNCHANGED <<runs, hist, top>>
GSpec == GInit /\ [][GNext \/ Emit]_gv
=============================================================================

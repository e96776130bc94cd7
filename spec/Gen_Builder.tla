----------------------------- MODULE Gen_Builder -----------------------------
EXTENDS Builder, Json
CONSTANTS Depth, Names, Keys, Vals, Types, Fmts, Places
VARIABLES hist, out, place
gv == <<m, hist, out, place>>
GInit == BInit /\ hist = <<>> /\ out = FALSE /\ place = [s \in Slots |-> "-"]
Log(s, op, a, b) == hist' = Append(hist, [s |-> s, op |-> op, a |-> a, b |-> b])
GStep(s) ==
  \/ UNCHANGED place /\ \E n \in Names : Begin(s, n) /\ Log(s, "begin", n, "-")
  \/ UNCHANGED place /\ \E d \in Vals : Desc(s, d) /\ Log(s, "desc", d, "-")
  \/ UNCHANGED place /\ \E k \in Keys, v \in Vals : Meta(s, k, v) /\ Log(s, "meta", k, v)
  \/ UNCHANGED place /\ \E ty \in Types : Ctx(s, ty, Len(hist)) /\ Log(s, "ctx", ty, "-")
  \/ UNCHANGED place /\ \E f \in Fmts : Fmt(s, f) /\ Log(s, "fmt", f, "-")
  \/ \E p \in Places : Build(s) /\ place' = [place EXCEPT ![s] = p] /\ Log(s, "build", p, "-")
  \/ UNCHANGED place /\ place[s] = "pinned" /\ \E n \in Names, d \in Vals \cup {"-"} : Again(s, n, IF d = "-" THEN <<>> ELSE <<d>>) /\ Log(s, "again", n, d)
  \/ UNCHANGED place /\ Drop(s) /\ Log(s, "drop", "-", "-")
GNext == Len(hist) < Depth /\ UNCHANGED out /\ \E s \in Slots : GStep(s)
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ PrintT("@@" \o ToJson([steps |-> hist])) /\ UNCHANGED <<m, hist, place>>
GSpec == GInit /\ [][GNext \/ Emit]_gv
=============================================================================

------------------------------ MODULE Gen_Iter ------------------------------
(***************************************************************************)
(* Every way of driving an iterator with up to Depth operations, for every *)
(* listing size in Sizes (breadth first: complete), or random longer ones  *)
(* (-simulate).                                                            *)
(***************************************************************************)
EXTENDS Iter, Json

CONSTANTS Depth, Sizes, Skips, Finals, Statics, DoubleEnded, Peeks

VARIABLES hist, out

SkipWords == {<<n, 0, 0, 0>> : n \in Skips}
             \cup {<<65535, 65535, 65535, 65535>>, <<0, 0, 1, 0>>}
Ops == {[op |-> "next", n |-> Zero]}
       \cup {[op |-> "nth", n |-> w] : w \in SkipWords}
       \cup (IF DoubleEnded
             THEN {[op |-> "next_back", n |-> Zero]} \cup {[op |-> "nth_back", n |-> w] : w \in SkipWords}
             ELSE {})
       \cup {[op |-> "peek", n |-> Zero] : x \in Peeks}

GInit == /\ \E n \in Sizes : IterInit([i \in 1..(n + Statics) |-> i])
         /\ hist = <<>> /\ out = FALSE
GNext == /\ Len(hist) < Depth
         /\ \E o \in Ops : Op(o.op, o.n) /\ hist' = Append(hist, o)
         /\ UNCHANGED out
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ \E f \in Finals :
             PrintT("@@" \o ToJson([dyn |-> Len(seq) - Statics, ops |-> hist, final |-> f]))
        /\ UNCHANGED <<seq, lo, hi, hist>>
\* As Emit, but all finals for each behaviour.
EmitAll == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
           /\ \A f \in Finals :
                PrintT("@@" \o ToJson([dyn |-> Len(seq) - Statics, ops |-> hist, final |-> f]))
           /\ UNCHANGED <<seq, lo, hi, hist>>
GSpec == GInit /\ [][GNext \/ Emit]_<<seq, lo, hi, hist, out>>
GSpecAll == GInit /\ [][GNext \/ EmitAll]_<<seq, lo, hi, hist, out>>
=============================================================================

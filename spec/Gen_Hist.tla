------------------------------ MODULE Gen_Hist ------------------------------
(***************************************************************************)
(* Behaviours of AtomicHist for replay: configurations, and recordings     *)
(* around every boundary of the layout, by several threads.                *)
(***************************************************************************)
EXTENDS AtomicHist, Buckets, Json
CONSTANTS Depth, Configs
VARIABLES cfg, hist, out

M == Base - 1
Pow(i) == [k \in 1..NLimbs |-> IF k = (i \div LimbBits) + 1 THEN 2 ^ (i % LimbBits) ELSE 0]
\* 2^p - 1, 2^p, 2^p + 1, 2^p + 2^(p-1)
Around(p) == IF p >= WordBits THEN {Neg(One)}
             ELSE {Sub(Pow(p), One), Pow(p), Add(Pow(p), One)} \cup
                  (IF p > 0 THEN {Add(Pow(p), Pow(p - 1))} ELSE {})
Powers(g, m) == {0, g, g + 1, m - 1, m, m + 1, WordBits} \cap 0..WordBits
Vals(g, m) == UNION {Around(p) : p \in Powers(g, m)} \cup {Zero}
Bs(c, v) == IF InRange(c[2], v) THEN <<BucketOf(c[1], v)>> ELSE <<>>

GInit == AHInit /\ hist = <<>> /\ out = FALSE /\ \E c \in Configs : cfg = <<c \div 100, c % 100>>    \* encoded as 100 g + m
GInc(t) == \E v \in Vals(cfg[1], cfg[2]) :
             IncCall(t, Bs(cfg, v), 1) /\ hist' = Append(hist, [t |-> t, op |-> "inc", a |-> v])
GLoad(t) == \E o \in {"load", "entry"} : LoadCall(t) /\ hist' = Append(hist, [t |-> t, op |-> o, a |-> Zero])
\* A load that shows what had started, and one that shows the least.
GRet(t) == /\ UNCHANGED hist
           /\ \/ pend[t].st = "inc" /\ IncRet(t, pend[t].bs # <<>>)
              \/ pend[t].st = "load" /\ LoadRet(t, IF started = <<>> THEN <<>> ELSE <<started>>)
GNext == /\ Len(hist) < Depth /\ UNCHANGED <<cfg, out>> /\ \E t \in Threads : GInc(t) \/ GLoad(t) \/ GRet(t)
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ PrintT("@@" \o ToJson([g |-> cfg[1], m |-> cfg[2], calls |-> hist]))
        /\ UNCHANGED <<ahvars, cfg, hist>>
GSpec == GInit /\ [][GNext \/ Emit]_<<ahvars, cfg, hist, out>>
=============================================================================

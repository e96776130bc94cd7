------------------------------- MODULE MC_Crowd -------------------------------
EXTENDS Crowd, FiniteSets
CONSTANTS Top, Variant
VARIABLES live, ever
vars == <<runs, live, ever>>
Init == CInit /\ live = {} /\ ever = {}
Register(lo, hi) == /\ lo..hi \cap ever = {} /\ ever' = ever \cup (lo..hi)
                    /\ live' = live \cup (lo..hi) /\ Come(lo, hi)
Drop(lo, hi) == /\ lo..hi \subseteq live /\ ever' = ever
                /\ live' = live \ (IF Variant = "off" THEN (lo + 1)..hi ELSE lo..hi) /\ Go(lo, hi)
Next == \E lo \in 1..Top : \E hi \in lo..Top : Register(lo, hi) \/ Drop(lo, hi)
Spec == Init /\ [][Next]_vars
\* The runs are the set, in the one form in which they can be written.
Same == live = UNION {r[1]..r[2] : r \in {runs[i] : i \in DOMAIN runs}}
Normal == /\ \A i \in DOMAIN runs : runs[i][1] <= runs[i][2]
          /\ \A i \in 1..(Len(runs) - 1) : runs[i][2] + 1 < runs[i + 1][1]
Counted == Total = Cardinality(live)
\* Nothing that could happen to the set is impossible for the runs.
Possible == \A lo \in 1..Top : \A hi \in lo..Top :
              /\ (lo..hi \cap ever = {}) => Apart(lo, hi)
              /\ (lo..hi \subseteq live) => \E i \in DOMAIN runs : runs[i][1] <= lo /\ hi <= runs[i][2]
=============================================================================

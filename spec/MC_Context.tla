----------------------------- MODULE MC_Context -----------------------------
EXTENDS Context
CONSTANTS MaxOffers, Broken
VARIABLES n, phase
vars == <<want, got, attached, own, made, n, phase>>
Mans == {"value", "ref"}
Types == {"A", "B"}
Init == CxInit /\ n = 0 /\ phase = "build"
O(man, ty) == [man |-> man, ty |-> ty, id |-> n + 1]
BuildStep == /\ phase = "build" /\ n < MaxOffers /\ n' = n + 1 /\ UNCHANGED <<want, got, made, phase>>
             /\ \/ \E ty \in Types : Attach(O("ref", ty)) /\ UNCHANGED own
                \/ \E man \in Mans, ty \in Types : own' = Append(own, O(man, ty)) /\ UNCHANGED attached
Start == /\ phase = "build" /\ phase' = "asked" /\ UNCHANGED n
         /\ \E man \in Mans, ty \in Types : Request(man, ty)
Own == /\ phase = "asked" /\ UNCHANGED <<n, phase>>
       /\ \E j \in 1..Len(own) : LET o == own[j] IN
            IF Broken THEN /\ j = Len(made) - Len(attached) + 1
                           /\ got' = IF o.man = want.man /\ o.ty = want.ty THEN <<o.id>> ELSE got
                           /\ made' = Append(made, o) /\ UNCHANGED <<want, attached, own>>
            ELSE Offer(o, Accepts(o.man, o.ty))
Answer == phase = "asked" /\ Result(Told) /\ phase' = "answered" /\ UNCHANGED n
Next == BuildStep \/ Start \/ Own \/ Answer
Spec == Init /\ [][Next]_vars

\* Declaratively: the result is the first matching offer, or nothing.
First == phase = "asked" => got = FirstOf(made, want)
All == phase = "answered" => got = FirstOf(attached \o own, want)
LastAttached == \A i, j \in 1..Len(attached) : i # j => attached[i].ty # attached[j].ty
\* A question answered yes means the next offer of that kind is taken, and never changes back.
Sticky == [][(phase = "asked" /\ got # <<>>) => got' = got]_vars
=============================================================================

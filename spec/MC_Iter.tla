------------------------------- MODULE MC_Iter -------------------------------
(* All ways of driving an iterator over up to MaxLen entries. *)
EXTENDS Iter, FiniteSets

CONSTANTS MaxLen, MaxSkip

VARIABLES front, back      \* what was yielded at either end, in order

vars == <<seq, lo, hi, front, back>>

Init == /\ \E n \in 0..MaxLen : IterInit([i \in 1..n |-> i])
        /\ front = <<>> /\ back = <<>>

Skips == {<<n, 0, 0, 0>> : n \in 0..MaxSkip} \cup {<<0, 1, 0, 0>>, <<65535, 65535, 65535, 65535>>}
Next == \E n \in Skips :
          \/ Op("nth", n) /\ front' = front \o Reply("nth", n) /\ UNCHANGED back
          \/ Op("nth_back", n) /\ back' = back \o Reply("nth_back", n) /\ UNCHANGED front
Spec == Init /\ [][Next]_vars

Increasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] < s[j]
Decreasing(s) == \A i, j \in 1..Len(s) : i < j => s[i] > s[j]
\* Nothing twice, one consistent order, nothing yielded that is still to come.
Once == /\ Increasing(front) /\ Decreasing(back)
        /\ \A i \in 1..Len(front) : front[i] < lo
        /\ \A j \in 1..Len(back) : back[j] > hi
        /\ lo <= hi + 1
Fused == [][Rem = 0 => /\ Rem' = 0 /\ front' = front /\ back' = back]_vars
Window == Rem = Len(Rest) /\ FinalReply("rev") = Reverse(FinalReply("fold"))
AlternateOnce == LET a == FinalReply("alternate") IN
                 /\ Len(a) = Rem
                 /\ {a[i] : i \in 1..Len(a)} = {Rest[i] : i \in 1..Len(Rest)}
=============================================================================

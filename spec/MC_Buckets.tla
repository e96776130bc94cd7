----------------------------- MODULE MC_Buckets -----------------------------
(***************************************************************************)
(* The layout itself, for every configuration and every value of a small   *)
(* word: the buckets partition the range below 2^m in order, and a bucket  *)
(* is no wider than 2^-g of the values in it.                              *)
(***************************************************************************)
EXTENDS Buckets, FiniteSets
VARIABLES g, m
NatOf(w) == w[1] + Base * w[2]
OfN(n) == <<n % Base, n \div Base>>
Max == Base * Base
Init == m \in 1..WordBits /\ g \in 0..(m - 1)
Spec == Init /\ [][FALSE]_<<g, m>>
Values == 0..(2 ^ m - 1)
RangeRight == \A v \in 0..(Max - 1) : InRange(m, OfN(v)) <=> v < 2 ^ m
Index(v) == BucketOf(g, OfN(v))
InOrder == /\ Index(0) = 0
           /\ Index(2 ^ m - 1) = TotalBuckets(g, m) - 1
           /\ \A v \in 1..(2 ^ m - 1) : Index(v) \in {Index(v - 1), Index(v - 1) + 1}
Narrow == \A v \in Values : LET k == Index(v)
                                lo == IF k < 2 ^ (g + 1) THEN k ELSE (2 ^ g + (k % (2 ^ g))) * 2 ^ ((k \div (2 ^ g)) - 1)
                                hi == IF k < 2 ^ (g + 1) THEN k ELSE lo + 2 ^ ((k \div (2 ^ g)) - 1) - 1
                            IN  lo <= v /\ v <= hi
=============================================================================

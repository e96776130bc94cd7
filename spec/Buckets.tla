------------------------------- MODULE Buckets -------------------------------
(***************************************************************************)
(* The bucket layout of a histogram with grouping power g and maximum      *)
(* value power m, over words: values below 2^(g+1) have a bucket each;     *)
(* above, every power of two is divided into 2^g buckets of equal width.   *)
(***************************************************************************)
EXTENDS Words

CONSTANTS LimbBits            \* Base = 2^LimbBits

Bit(w, i) == (w[(i \div LimbBits) + 1] \div (2 ^ (i % LimbBits))) % 2
WordBits == LimbBits * NLimbs

Validcfg(g, m) == m \in 1..WordBits /\ g \in 0..(m - 1)

TotalBuckets(g, m) == (m - g + 1) * (2 ^ g)

\* Number of significant bits.
RECURSIVE LimbLen(_), TopLimb(_, _)
LimbLen(n) == IF n = 0 THEN 0 ELSE 1 + LimbLen(n \div 2)
TopLimb(w, i) == IF i = 1 \/ w[i] # 0 THEN i ELSE TopLimb(w, i - 1)
BitLen(w) == LET i == TopLimb(w, NLimbs) IN (i - 1) * LimbBits + LimbLen(w[i])

InRange(m, w) == BitLen(w) <= m

\* w shifted right by s, if that fits a machine integer
RECURSIVE Shr(_, _, _)
Shr(w, s, top) == IF top < s THEN 0 ELSE Bit(w, s) + 2 * Shr(w, s + 1, top)

BucketOf(g, w) ==
  LET p == BitLen(w) - 1
  IN  IF p <= g THEN Shr(w, 0, p)
      ELSE (p - g) * (2 ^ g) + Shr(w, p - g, p)
=============================================================================

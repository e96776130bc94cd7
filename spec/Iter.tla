-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Traversal of a fixed listing (C04; the iterator half of C14): an        *)
(* iterator is the window lo..hi of the listing that is still to come.     *)
(* Every way of driving it is defined by its effect on that window.        *)
(* Skip counts are 64-bit words, so n is huge when an upper limb is set.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES seq,      \* the listing, in traversal order
          lo, hi    \* the entries still to come are seq[lo..hi]

ivars == <<seq, lo, hi>>

Rem == (hi + 1) - lo
Rest == SubSeq(seq, lo, hi)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

IterInit(s) == seq = s /\ lo = 1 /\ hi = Len(s)

\* Does skipping n leave nothing?
Beyond(n) == n[2] > 0 \/ n[3] > 0 \/ n[4] > 0 \/ n[1] >= Rem

None == <<>>
Some(x) == <<x>>

\* nth(n): skip n entries at the front, yield the next; next() is nth(0).
NthReply(n)   == IF Beyond(n) THEN None ELSE Some(seq[lo + n[1]])
Nth(n)        == /\ lo' = IF Beyond(n) THEN hi + 1 ELSE lo + n[1] + 1
                 /\ UNCHANGED <<seq, hi>>
NthBackReply(n) == IF Beyond(n) THEN None ELSE Some(seq[hi - n[1]])
NthBack(n)      == /\ hi' = IF Beyond(n) THEN lo - 1 ELSE (hi - n[1]) - 1
                   /\ UNCHANGED <<seq, lo>>

Zero == <<0, 0, 0, 0>>

Op(op, n) == CASE op = "next"      -> Nth(Zero)
               [] op = "nth"       -> Nth(n)
               [] op = "next_back" -> NthBack(Zero)
               [] op = "nth_back"  -> NthBack(n)
               [] op \in {"peek"}  -> UNCHANGED ivars

Reply(op, n) == CASE op = "next"      -> NthReply(Zero)
                  [] op = "nth"       -> NthReply(n)
                  [] op = "next_back" -> NthBackReply(Zero)
                  [] op = "nth_back"  -> NthBackReply(n)
                  [] op = "peek"      -> None

\* Operations that use the iterator up.
Every(s, k) == [i \in 1..((Len(s) + k - 1) \div k) |-> s[(i - 1) * k + 1]]
FinalReply(op) ==
  CASE op \in {"fold", "collect", "for_each", "loop", "try_fold"} -> Rest
    [] op \in {"rfold", "rev", "loop_back"} -> Reverse(Rest)
    [] op = "alternate" ->      \* one from the front, one from the back, ...
         [i \in 1..Rem |-> IF i % 2 = 1 THEN seq[lo + (i \div 2)] ELSE seq[hi + 1 - (i \div 2)]]
    [] op = "last" -> IF Rem = 0 THEN <<>> ELSE <<seq[hi]>>
    [] op = "step2" -> Every(Rest, 2)
    [] op = "skip1" -> IF Rem = 0 THEN <<>> ELSE Tail(Rest)
    [] op = "revskip1" -> IF Rem = 0 THEN <<>> ELSE Tail(Reverse(Rest))

\* What may be said about the number of entries to come, now.
ExactHint(l, h) == l = Rem /\ h = <<Rem>>
BoundHint(l, h) == l <= Rem /\ (IF h = <<>> THEN TRUE ELSE h[1] >= Rem)
=============================================================================

------------------------------- MODULE Words -------------------------------
(***************************************************************************)
(* Fixed-width machine words.  TLC's integers are 32 bit, so a word is a   *)
(* little-endian sequence of NLimbs limbs in base Base.  Conformance runs  *)
(* use Base = 65536, NLimbs = 4 (a 64-bit word); model checking uses tiny  *)
(* words so that wrap-around is explored exhaustively.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences

CONSTANTS Base, NLimbs

Word == [1..NLimbs -> 0..(Base - 1)]

Zero == [i \in 1..NLimbs |-> 0]
One  == [i \in 1..NLimbs |-> IF i = 1 THEN 1 ELSE 0]

IsWord(a) == /\ Len(a) = NLimbs
             /\ \A i \in 1..NLimbs : a[i] \in 0..(Base - 1)

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
  IF i > NLimbs THEN <<>>
  ELSE LET s == a[i] + b[i] + c
       IN  <<s % Base>> \o AddC(a, b, i + 1, s \div Base)

\* Addition modulo Base^NLimbs.
Add(a, b) == AddC(a, b, 1, 0)

\* Two's complement negation, and subtraction modulo Base^NLimbs.
Neg(a) == Add([i \in 1..NLimbs |-> Base - 1 - a[i]], One)
Sub(a, b) == Add(a, Neg(b))

\* Unsigned comparison.
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) ==
  IF i = 0 THEN FALSE
  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtFrom(a, b, i - 1)
Lt(a, b) == LtFrom(a, b, NLimbs)
Leq(a, b) == ~Lt(b, a)

\* A small natural number as a word (n < Base).
OfNat(n) == [i \in 1..NLimbs |-> IF i = 1 THEN n ELSE 0]
=============================================================================

----------------------------- MODULE Trace_Iter -----------------------------
(***************************************************************************)
(* Recorded traversals, explained by Iter.  "new" gives the order found by *)
(* plain stepping and the set it has to be a permutation of.               *)
(***************************************************************************)
EXTENDS Iter, TraceBase, FiniteSets

VARIABLE exact      \* hints are exact for this kind of iterator

tvars == <<seq, lo, hi, l, exact>>

TInit == IterInit(<<>>) /\ l = 1 /\ exact = TRUE

IsPermutation(s, expected) ==
  /\ Len(s) = Len(expected)
  /\ Range(s) = Range(expected)
  /\ Cardinality(Range(s)) = Cardinality(Range(expected))

TNew == /\ Is("new")
        /\ IsPermutation(Ev.seq, Ev.expected)
        /\ seq' = Ev.seq /\ lo' = 1 /\ hi' = Len(Ev.seq)
        /\ exact' = Ev.exact

Hints == IF exact THEN ExactHint(Ev.lo, Ev.hi) /\ (Ev.len = <<>> \/ Ev.len = <<Rem>>)
         ELSE BoundHint(Ev.lo, Ev.hi)

\* The hints of an event were read before its operation.
TOp == Is("op") /\ Hints /\ Ev.r = Reply(Ev.op, Ev.n) /\ Op(Ev.op, Ev.n) /\ UNCHANGED exact
\* A clone of the iterator, used up: the original is not disturbed.
TFork == Is("fork") /\ Ev.r = Rest /\ UNCHANGED <<seq, lo, hi, exact>>
TFinal == Is("final") /\ Hints /\ Ev.op # "count" /\ Ev.r = FinalReply(Ev.op) /\ UNCHANGED <<seq, lo, hi, exact>>
TCount == Is("final") /\ Hints /\ Ev.op = "count" /\ Ev.r = <<Rem>> /\ UNCHANGED <<seq, lo, hi, exact>>

(***************************************************************************)
(* The map half of C14: size, membership and lookup agree with the pairs   *)
(* that the traversal yields.                                              *)
(***************************************************************************)
Matches(k) == {i \in 1..Len(seq) : seq[i][1] = k}
TSize == Is("size") /\ Ev.len = Len(seq) /\ Ev.empty = (Len(seq) = 0) /\ UNCHANGED <<seq, lo, hi, exact>>
TGet == /\ Is("get")
        /\ Cardinality(Matches(Ev.k)) <= 1
        /\ Ev.has = (Matches(Ev.k) # {})
        /\ Ev.v = IF Matches(Ev.k) = {} THEN <<>> ELSE <<seq[CHOOSE i \in Matches(Ev.k) : TRUE][2]>>
        /\ UNCHANGED <<seq, lo, hi, exact>>

TNext == TNew \/ TOp \/ TFork \/ TFinal \/ TCount \/ TSize \/ TGet
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

-------------------------------- MODULE Crowd --------------------------------
(***************************************************************************)
(* Very many metrics (C01, C04, C16).  Metrics are numbered; the set of    *)
(* live ones is kept as the sequence of its maximal runs of consecutive    *)
(* numbers, so that tens of thousands of metrics are a small state.        *)
(* MC_Crowd shows that this is the set.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

VARIABLES runs      \* <<lo, hi>>, ascending, with gaps between them

CInit == runs = <<>>

Join(rs, r) ==      \* append r, which lies above rs
  IF rs # <<>> /\ rs[Len(rs)][2] + 1 = r[1]
  THEN [rs EXCEPT ![Len(rs)] = <<@[1], r[2]>>] ELSE Append(rs, r)
Below(lo) == SelectSeq(runs, LAMBDA r : r[2] < lo)
Above(hi) == SelectSeq(runs, LAMBDA r : r[1] > hi)
Apart(lo, hi) == \A i \in DOMAIN runs : runs[i][2] < lo \/ runs[i][1] > hi

\* lo..hi are registered, one after another.
Come(lo, hi) == /\ lo <= hi /\ Apart(lo, hi)
                /\ runs' = FoldLeft(Join, <<>>, Below(lo) \o <<<<lo, hi>>>> \o Above(hi))
\* lo..hi are dropped, in any order.
Go(lo, hi) == /\ lo <= hi
              /\ \E i \in DOMAIN runs :
                   LET r == runs[i] IN
                   /\ r[1] <= lo /\ hi <= r[2]
                   /\ runs' = SubSeq(runs, 1, i - 1)
                              \o (IF r[1] < lo THEN <<<<r[1], lo - 1>>>> ELSE <<>>)
                              \o (IF hi < r[2] THEN <<<<hi + 1, r[2]>>>> ELSE <<>>)
                              \o SubSeq(runs, i + 1, Len(runs))

Total == FoldLeft(LAMBDA a, r : a + r[2] - r[1] + 1, 0, runs)

\* A listing or a snapshot shows each live metric once and nothing else.
See(rs) == rs = runs /\ UNCHANGED runs
\* What the iterators say: how many there are, counted in several ways, and
\* where skipping k entries leads (the position in the forward order, or -1).
Sizes(ns) == (\A i \in DOMAIN ns : ns[i] = Total) /\ UNCHANGED runs
Skips(ks) == (\A i \in DOMAIN ks : ks[i][2] = (IF ks[i][1] < Total THEN ks[i][1] ELSE -1)) /\ UNCHANGED runs
BackSkips(ks) == (\A i \in DOMAIN ks : ks[i][2] = (IF ks[i][1] < Total THEN Total - 1 - ks[i][1] ELSE -1)) /\ UNCHANGED runs
Bounds(lo, hi) == /\ (lo <= Total) = TRUE
                  /\ (IF hi = <<>> THEN TRUE ELSE hi[1] >= Total) = TRUE
                  /\ UNCHANGED runs
=============================================================================

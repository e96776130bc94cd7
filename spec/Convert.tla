------------------------------ MODULE Convert ------------------------------
(***************************************************************************)
(* Converting a recording (C22, C23).  The recording is a sequence of      *)
(* encoded snapshots, possibly dirty: cut off within one, or with          *)
(* something else in between.  Reads, seeks and writes may fail.  The      *)
(* conversion succeeds, with the table of all snapshots, exactly if        *)
(* nothing failed and the recording is clean.                              *)
(***************************************************************************)
EXTENDS Table

VARIABLES dirty, bad

convars == <<st, cols, fmeta, opts, rows, dirty, bad>>
ConInit == TabInit /\ dirty = FALSE /\ bad = FALSE

\* Everything direct pushing would have done.
Begin(ss, d, o, extra) ==
  /\ LET r == SchemaOf(<<>>, <<>>, ss) IN cols' = r.c /\ fmeta' = extra @@ r.f
  /\ rows' = [j \in 1..Len(ss) |-> RowOf(ss[j])]
  /\ opts' = o /\ st' = "rows" /\ dirty' = d /\ bad' = FALSE

Fault == bad' = TRUE /\ UNCHANGED <<st, cols, fmeta, opts, rows, dirty>>
Failed == st = "rows" /\ (bad \/ dirty) /\ st' = "closed" /\ UNCHANGED <<cols, fmeta, opts, rows, dirty, bad>>
Done(n, f) == ~bad /\ ~dirty /\ n = Len(rows) /\ Close(f) /\ UNCHANGED <<dirty, bad>>
=============================================================================

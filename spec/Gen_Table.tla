------------------------------ MODULE Gen_Table ------------------------------
(***************************************************************************)
(* Scenarios: recordings of snapshots over a few metrics (a metric is a    *)
(* number; the check gives it a name and metadata), some of them left out  *)
(* of the schema or of the rows, and options.                              *)
(***************************************************************************)
EXTENDS Table, Json
CONSTANTS Snaps, MaxReads, Metrics, Batches, Roles
VARIABLES snaps, out, o
gv == <<st, cols, fmeta, opts, rows, snaps, out, o>>
GInit == /\ TabInit /\ snaps = <<>> /\ out = FALSE
         /\ o \in [batch : Batches, sparse : BOOLEAN, codec : {"none", "zstd"}, extra : 0..2]
Snap == /\ Len(snaps) < Snaps
        /\ \E v \in {1, 2}, r \in Roles, f \in 0..2 : snaps' = Append(snaps, [ver |-> v, role |-> r, fm |-> f, reads |-> <<>>])
        /\ UNCHANGED <<out, o, tabvars>>
Read == /\ snaps # <<>> /\ Len(snaps[Len(snaps)].reads) < MaxReads
        /\ \E k \in {"counter", "gauge", "histogram"}, j \in Metrics :
             snaps' = [snaps EXCEPT ![Len(snaps)].reads = Append(@, [k |-> k, j |-> j])]
        /\ UNCHANGED <<out, o, tabvars>>
Again == Read
More == Read
Emit == /\ ~out /\ Len(snaps) = Snaps
        /\ PrintT("@@" \o ToJson([snaps |-> snaps] @@ o))
        /\ out' = TRUE /\ UNCHANGED <<snaps, o, tabvars>>
GNext == (~out /\ Snap) \/ (~out /\ Read) \/ (~out /\ Again) \/ (~out /\ More) \/ Emit
GSpec == GInit /\ [][GNext]_gv
=============================================================================

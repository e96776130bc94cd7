----------------------------- MODULE Gen_Convert -----------------------------
(* Recordings as in Gen_Table, and what happens to the conversion: how the
   reader splits its reads and the writer its writes, which interface is used,
   and what fails.  A fault is tried at every place it can occur. *)
EXTENDS Convert, Json
CONSTANTS Snaps, MaxReads, Metrics, Batches, Faults, Apis
VARIABLES snaps, out, o
gv == <<st, cols, fmeta, opts, rows, dirty, bad, snaps, out, o>>
GInit == /\ ConInit /\ snaps = <<>> /\ out = FALSE
         /\ o \in [batch : Batches, sparse : BOOLEAN, codec : {"none", "zstd"}, extra : 0..2, fault : Faults, api : Apis,
                   chunk : {0, 1, 2, 7, 100}, short : BOOLEAN, sticky : BOOLEAN]
Snap == /\ Len(snaps) < Snaps
        /\ \E v \in {1, 2}, f \in 0..2 : snaps' = Append(snaps, [ver |-> v, role |-> "both", fm |-> f, reads |-> <<>>])
        /\ UNCHANGED <<out, o, convars>>
Read == /\ snaps # <<>> /\ Len(snaps[Len(snaps)].reads) < MaxReads
        /\ \E k \in {"counter", "gauge", "histogram"}, j \in Metrics :
             snaps' = [snaps EXCEPT ![Len(snaps)].reads = Append(@, [k |-> k, j |-> j])]
        /\ UNCHANGED <<out, o, convars>>
Again == Read
Emit == /\ ~out /\ Len(snaps) = Snaps
        /\ PrintT("@@" \o ToJson([snaps |-> snaps] @@ o))
        /\ out' = TRUE /\ UNCHANGED <<snaps, o, convars>>
GNext == (~out /\ Snap) \/ (~out /\ Read) \/ (~out /\ Again) \/ Emit
GSpec == GInit /\ [][GNext]_gv
=============================================================================

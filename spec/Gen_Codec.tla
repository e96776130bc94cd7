------------------------------ MODULE Gen_Codec ------------------------------
(* Streams of snapshots (versions, number of readings of each kind), the
   format, how it is decoded and in which order the accessors are used. *)
EXTENDS Codec, Json, TLC
CONSTANTS MaxLen, Counts
VARIABLES how, snaps, order, out
gv == <<fmt, stream, pos, at, how, snaps, order, out>>
Fields == {"ts", "dur", "meta", "counters", "gauges", "histograms"}
GInit == /\ CInit /\ snaps = <<>> /\ out = FALSE /\ order = <<>>
         /\ how \in [fmt : {"json", "msgpack"}, dec : {"stream", "each"}, form : {"enum", "inner"}]
Snap == /\ Len(snaps) < MaxLen
        /\ \E v \in {1, 2}, c \in Counts, g \in Counts, h \in Counts, m \in 0..1 :
             snaps' = Append(snaps, [ver |-> v, c |-> c, g |-> g, h |-> h, fm |-> m])
        /\ UNCHANGED <<how, order, out, cvars>>
Pick == /\ \E f \in Fields : (\A i \in 1..Len(order) : order[i] # f) /\ order' = Append(order, f)
        /\ UNCHANGED <<how, snaps, out, cvars>>
Emit == /\ ~out /\ Len(order) = 6 /\ Len(snaps) = MaxLen
        /\ PrintT("@@" \o ToJson([snaps |-> snaps, order |-> order] @@ how))
        /\ out' = TRUE /\ UNCHANGED <<how, snaps, order, cvars>>
GNext == (~out /\ Snap) \/ (~out /\ Pick) \/ Emit
GSpec == GInit /\ [][GNext]_gv
=============================================================================

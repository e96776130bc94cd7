---------------------------- MODULE Gen_Snapshot ----------------------------
(***************************************************************************)
(* Scenarios for snapshots: metrics of all kinds come, change and go, and  *)
(* snapshots are taken in between (Snappers = {}) or are open while this   *)
(* happens: "open" starts one and stops it at its first metric, "go" lets  *)
(* it advance to the next, "close" lets it finish.  Registrations and      *)
(* drops started meanwhile may have to wait, so what they concern is left  *)
(* alone until no snapshot is open.                                        *)
(***************************************************************************)
EXTENDS Snapshot, Json
CONSTANTS Depth, Kinds, Places, StaticKinds, Snappers
SK == <<"counter", "gauge", "lcounter", "lgauge", "ahist", "rhist", "lahist", "lrhist", "cnone", "cother">>
VARIABLES hist, out, open, gone, hot
gv == <<m, pend, win, hist, out, open, gone, hot>>
Dyn == {i \in Ids : i > Len(StaticKinds)}
GInit == /\ m = [i \in Ids |-> IF i <= Len(StaticKinds) THEN Metric(StaticKinds[i], "", <<>>, <<>>, "", 0, 1) ELSE Absent]
         /\ pend = [t \in Threads |-> Idle] /\ win = [t \in Threads |-> <<>>]
         /\ hist = <<>> /\ out = FALSE /\ open = {} /\ gone = {} /\ hot = {}
Log(o, i, k, p) == hist' = Append(hist, [op |-> o, i |-> i, k |-> k, p |-> p])
Usable == {i \in Ids : m[i].st = "live" /\ i \notin hot}
Ops(k) == CASE k \in Counters \cup Gauges -> {"set", "add"}
            [] k \in Atomics -> {"rec"}
            [] k \in Bulks -> {"upd"}
            [] OTHER -> {}
OpsOf(k) == Ops(k) \cup (IF k \in Lazies THEN {"force"} ELSE {})
GReg == \E i \in Dyn \ gone, k \in Kinds, p \in Places :
          /\ m[i] = Absent /\ \A j \in Dyn \ gone : j < i => m[j] # Absent
          /\ m' = [m EXCEPT ![i] = Metric(k, "", <<>>, <<>>, "", 0, 1)]
          /\ hot' = (IF open = {} THEN hot ELSE hot \cup {i})
          /\ Log("reg", i, k, p) /\ UNCHANGED <<open, gone>>
GDrop == \E i \in Usable \cap Dyn :
          /\ m' = [m EXCEPT ![i] = Absent] /\ gone' = gone \cup {i}
          /\ Log("drop", i, "-", "-") /\ UNCHANGED <<open, hot>>
GUpd == \E i \in Usable : \E o \in OpsOf(m[i].kind) :
          /\ m' = [m EXCEPT ![i].on = TRUE]
          /\ Log(o, i, m[i].kind, "-") /\ UNCHANGED <<open, gone, hot>>
GSnap == Snappers = {} /\ Log("snap", 0, "-", "-") /\ UNCHANGED <<m, open, gone, hot>>
GOpen == \E t \in Snappers \ open : open' = open \cup {t} /\ Log("open", t, "-", "-") /\ UNCHANGED <<m, gone, hot>>
GGo == \E t \in open : Log("go", t, "-", "-") /\ UNCHANGED <<m, open, gone, hot>>
GClose == \E t \in open : /\ open' = open \ {t} /\ hot' = (IF open' = {} THEN {} ELSE hot)
                          /\ Log("close", t, "-", "-") /\ UNCHANGED <<m, gone>>
Step(A) == Len(hist) < Depth /\ A /\ UNCHANGED <<out, pend, win>>
Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE
        /\ PrintT("@@" \o ToJson([steps |-> hist])) /\ UNCHANGED <<m, pend, win, hist, open, gone, hot>>
GNext == \/ Step(GReg) \/ Step(GDrop) \/ Step(GUpd) \/ Step(GSnap) \/ Step(GOpen) \/ Step(GGo) \/ Step(GClose)
         \/ Emit
GSpec == GInit /\ [][GNext]_gv
=============================================================================

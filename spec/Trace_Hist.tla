----------------------------- MODULE Trace_Hist -----------------------------
(* Recorded histories of real atomic histograms, explained by AtomicHist. *)
EXTENDS AtomicHist, Buckets, TraceBase
VARIABLE cfg
tvars == <<started, finished, shown, some, pend, cfg, l>>
TInit == AHInit /\ cfg = <<0, 1>> /\ l = 1
Quiescent == \A t \in Threads : pend[t] = Idle
TNew == /\ Is("new") /\ Quiescent /\ Validcfg(Ev.g, Ev.m)
        /\ cfg' = <<Ev.g, Ev.m>>
        /\ started' = <<>> /\ finished' = <<>> /\ shown' = <<>> /\ some' = FALSE /\ UNCHANGED pend
\* The configuration, reported by the histogram itself.
SameCfg(e) == e.g = cfg[1] /\ e.m = cfg[2]
TCfg == Is("cfg") /\ SameCfg(Ev) /\ UNCHANGED <<ahvars, cfg>>
Bs(v) == IF InRange(cfg[2], v) THEN <<BucketOf(cfg[1], v)>> ELSE <<>>
TInc == Is("inc") /\ IncCall(Ev.t, Bs(Ev.a), Ev.n) /\ UNCHANGED cfg
TIncRet == Is("incret") /\ IncRet(Ev.t, Ev.ok) /\ UNCHANGED cfg
TAlone == Is("inc1") /\ IncAlone(Bs(Ev.a), Ev.ok) /\ UNCHANGED cfg
TLoad == Is("load") /\ LoadCall(Ev.t) /\ UNCHANGED cfg
TNone == Is("none") /\ LoadRet(Ev.t, <<>>) /\ UNCHANGED cfg
\* idx and cnt: the buckets that are not zero, in order, and their counts.
TSome == /\ Is("some") /\ SameCfg(Ev)
         /\ Ev.len = TotalBuckets(cfg[1], cfg[2])
         /\ LoadRet(Ev.t, <<[b \in Range(Ev.idx) |-> Ev.cnt[CHOOSE i \in 1..Len(Ev.idx) : Ev.idx[i] = b]]>>)
         /\ UNCHANGED cfg
TNext == TNew \/ TCfg \/ TInc \/ TIncRet \/ TAlone \/ TLoad \/ TNone \/ TSome
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

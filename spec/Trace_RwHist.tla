---------------------------- MODULE Trace_RwHist ----------------------------
EXTENDS RwHist, TraceBase
VARIABLE cfg
tvars == <<cur, size, pend, cfg, l>>
TInit == RwInit(2) /\ cfg = <<0, 1>> /\ l = 1
Quiescent == \A t \in Threads : pend[t] = Idle
Total(g, m) == (m - g + 1) * (2 ^ g)
TNew == /\ Is("new") /\ Quiescent /\ cfg' = <<Ev.g, Ev.m>> /\ size' = Total(Ev.g, Ev.m) /\ cur' = <<>> /\ UNCHANGED pend
SameCfg(e) == e.g = cfg[1] /\ e.m = cfg[2]
TCfg == Is("cfg") /\ SameCfg(Ev) /\ UNCHANGED <<rwvars, cfg>>
TUpd == Is("update") /\ UpdCall(Ev.t, Ev.d) /\ UNCHANGED cfg
TUpdRet == Is("updret") /\ UpdRet(Ev.t, Ev.ok) /\ UNCHANGED cfg
TLoad == Is("load") /\ LoadCall(Ev.t) /\ UNCHANGED cfg
TNone == Is("none") /\ LoadRet(Ev.t, <<>>) /\ UNCHANGED cfg
TSome == Is("some") /\ SameCfg(Ev) /\ LoadRet(Ev.t, <<Ev.d>>) /\ UNCHANGED cfg
TLin == l <= Last /\ UNCHANGED <<l, cfg>> /\ Lin
TNext == TNew \/ TCfg \/ TUpd \/ TUpdRet \/ TLoad \/ TNone \/ TSome \/ TLin
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

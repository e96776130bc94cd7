------------------------------ MODULE Trace_Crowd ------------------------------
EXTENDS Crowd, TraceBase
tvars == <<runs, l>>
TInit == CInit /\ l = 1
TNew == Is("new") /\ runs' = <<>>
TCome == Is("come") /\ Come(Ev.lo, Ev.hi)
TGo == Is("go") /\ Go(Ev.lo, Ev.hi)
TSee == Is("see") /\ See(Ev.runs)
TSizes == Is("sizes") /\ Sizes(Ev.ns)
TSkips == Is("skips") /\ Skips(Ev.ks)
TBackSkips == Is("backskips") /\ BackSkips(Ev.ks)
TBounds == Is("bounds") /\ Bounds(Ev.lo, Ev.hi)
TNext == TNew \/ TCome \/ TGo \/ TSee \/ TSizes \/ TSkips \/ TBackSkips \/ TBounds
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

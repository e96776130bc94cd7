---------------------------- MODULE Trace_Context ----------------------------
EXTENDS Context, TraceBase
tvars == <<want, got, attached, own, made, l>>
TInit == CxInit /\ l = 1
TNew == Is("new") /\ want' = [man |-> "-", ty |-> "-"] /\ got' = <<>> /\ attached' = <<>> /\ made' = <<>> /\ own' = Ev.own
TAttach == Is("attach") /\ Attach([man |-> Ev.man, ty |-> Ev.ty, id |-> Ev.id]) /\ UNCHANGED <<want, got, own, made>>
TRequest == Is("request") /\ Request(Ev.man, Ev.ty)
TOffer == Is("offer") /\ Offer([man |-> Ev.man, ty |-> Ev.ty, id |-> Ev.id], Ev.used)
\* Whether a plain offer was taken does not show at once.
TPlain == Is("plain") /\ Offer([man |-> Ev.man, ty |-> Ev.ty, id |-> Ev.id], Accepts(Ev.man, Ev.ty))
TAsk == Is("ask") /\ Ask(Ev.man, Ev.ty, Ev.yes)
TResult == Is("result") /\ Result(Ev.r)
TNext == TNew \/ TAttach \/ TRequest \/ TOffer \/ TPlain \/ TAsk \/ TResult
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

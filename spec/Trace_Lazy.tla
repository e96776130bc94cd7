----------------------------- MODULE Trace_Lazy -----------------------------
EXTENDS Lazy, TraceBase
tvars == <<cell, obj, addr, pend, l>>
TInit == LazyInit /\ l = 1
TNew == /\ Is("new") /\ \A t \in Threads : pend[t] = Idle
        /\ cell' = "unset" /\ obj' = 0 /\ addr' = 0 /\ UNCHANGED pend
TCall  == Is("call") /\ Call(Ev.t, Ev.op)
TStart == Is("initstart") /\ InitStart(Ev.t, Ev.obj)
TEnd   == Is("initend") /\ InitEnd(Ev.t, Ev.how)
TRet   == Is("ret") /\ Ret(Ev.t, Ev.r, Ev.addr)
\* "enabled" only says whether there is something.
TRetFlag == /\ Is("retflag") /\ pend[Ev.t].st = "done"
            /\ Ev.on = (pend[Ev.t].ret # <<>>)
            /\ Ret(Ev.t, pend[Ev.t].ret, 0)
TRetPanic == /\ Is("retpanic") /\ Ret(Ev.t, Panicked, 0)
TLin == /\ l <= Last /\ UNCHANGED l /\ \E t \in Threads : Lin(t)
TNext == TNew \/ TCall \/ TStart \/ TEnd \/ TRet \/ TRetFlag \/ TRetPanic \/ TLin
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

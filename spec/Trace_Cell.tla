----------------------------- MODULE Trace_Cell -----------------------------
(* Recorded histories of real counters and gauges, explained by Cell. *)
EXTENDS Cell, TraceBase


tvars == <<val, pend, l>>

TInit == CellInit(Zero) /\ l = 1

\* A new cell: the previous history must be over.
TNew == /\ Is("new") /\ \A t \in Threads : pend[t] = Idle
        /\ Ev.kind = Kind
        /\ val' = Ev.v /\ UNCHANGED pend
TCall == /\ Is("call") /\ Call(Ev.t, Ev.op, Ev.a)
TRet  == /\ Is("ret") /\ Ret(Ev.t, Ev.r)
TLin  == /\ l <= Last /\ \E t \in Threads : Lin(t)
         /\ UNCHANGED l
TBurstCall == /\ Is("burst") /\ BurstCall(Ev.t, Ev.op, Ev.a, Ev.n)
TBurstRet  == /\ Is("burstret") /\ BurstRet(Ev.t, Ev.s)
\* The sum of everything returned, when all operations had the same delta.
TUniform == /\ Is("uniform") /\ \A t \in Threads : pend[t] = Idle
            /\ Ev.s = UniformSum(Ev.v0, Delta(Ev.op, Ev.a), Ev.n)
            /\ UNCHANGED <<val, pend>>
\* Threads raced; v is what the word is now that they are done.
TRace == /\ Is("race") /\ Race({Ev.edges[i] : i \in DOMAIN Ev.edges}, Ev.v)
TQuiet == /\ Is("quiet") /\ Quiet(Ev.v)

TNext == TNew \/ TCall \/ TRet \/ TLin \/ TBurstCall \/ TBurstRet \/ TUniform \/ TRace \/ TQuiet
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

----------------------------- MODULE Trace_Handle -----------------------------
EXTENDS Handle, TraceBase
tvars == <<live, l>>
TInit == HInit /\ l = 1
TNew == Is("new") /\ live' = <<>>
TAdd == Is("add") /\ HAdd(Ev.i, Ev.type, Ev.st)
TSet == Is("set") /\ HSet(Ev.i, Ev.st)
TDrop == Is("drop") /\ HDrop(Ev.i)
TRead == Is("read") /\ HRead(Ev.i, [enabled |-> Ev.enabled, value |-> Ev.value, any |-> Ev.any])
TIs == Is("is") /\ HIs(Ev.i, Ev.yes)
TNext == TNew \/ TAdd \/ TSet \/ TDrop \/ TRead \/ TIs
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

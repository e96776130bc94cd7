---------------------------- MODULE Trace_Builder ----------------------------
EXTENDS Builder, TraceBase
tvars == <<m, l>>
TInit == BInit /\ l = 1
TNew == Is("new") /\ m' = [s \in Slots |-> None]
\* meta as a function, from a sequence of pairs with distinct keys
RECURSIVE MapOf(_)
MapOf(ps) == IF ps = <<>> THEN <<>> ELSE (ps[1][1] :> ps[1][2]) @@ MapOf(Tail(ps))
TStatic == Is("static") /\ Static(Ev.s, [st |-> "live", name |-> Ev.name, desc |-> Ev.desc, meta |-> MapOf(Ev.meta),
                                         ctx |-> <<>>, fmt |-> Ev.fmt])
TBegin == Is("begin") /\ Begin(Ev.s, Ev.a)
TDesc == Is("desc") /\ Desc(Ev.s, Ev.a)
TMeta == Is("meta") /\ Meta(Ev.s, Ev.a, Ev.b)
TCtx == Is("ctx") /\ Ctx(Ev.s, Ev.a, Ev.id)
TFmt == Is("fmt") /\ Fmt(Ev.s, Ev.a)
TBuild == Is("build") /\ Build(Ev.s)
TAgain == Is("again") /\ Again(Ev.s, Ev.a, Ev.desc)
TDrop == Is("drop") /\ Drop(Ev.s)
TEntry == Is("entry") /\ Entry(Ev.s, Ev) /\ UNCHANGED m
TFormatted == Is("formatted") /\ m[Ev.s].st = "live" /\ Formatted(m[Ev.s], Ev.format, Ev.text) /\ UNCHANGED m
TNext == TNew \/ TStatic \/ TBegin \/ TDesc \/ TMeta \/ TCtx \/ TFmt \/ TBuild \/ TAgain \/ TDrop \/ TEntry \/ TFormatted
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

----------------------------- MODULE Trace_Codec -----------------------------
EXTENDS Codec, TraceBase
tvars == <<fmt, stream, pos, at, l>>
TInit == CInit /\ l = 1
TNew == Is("new") /\ New(Ev.fmt)
TEnc == Is("enc") /\ Encode(Ev.s, Ev.nl, Ev.len)
TDec == Is("dec") /\ Decode(Ev.s)
TEnd == Is("end") /\ AtEnd
TAcc == Is("acc") /\ Access(Ev.f, Ev.v)
TNext == TNew \/ TEnc \/ TDec \/ TEnd \/ TAcc
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

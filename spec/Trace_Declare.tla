---------------------------- MODULE Trace_Declare ----------------------------
EXTENDS Declare, TraceBase
tvars == <<decls, l>>
TInit == DInit /\ l = 1
TNew == Is("new") /\ decls' = <<>>
TDecl == Is("decl") /\ Decl(Ev, Ev.ok)
TListing == Is("listing") /\ Listing(Ev.entries) /\ UNCHANGED decls
TNext == TNew \/ TDecl \/ TListing
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

--------------------------- MODULE Trace_Registry ---------------------------
(***************************************************************************)
(* Recorded histories of the real registry, explained by Registry.         *)
(* "new" starts a history with the statically declared metrics.  A "stuck" *)
(* event (an operation that had to return did not) is never explained.     *)
(***************************************************************************)
EXTENDS Registry, TraceBase

VARIABLE statics    \* the ids of all static metrics of the program

tvars == <<reg, views, pend, l, statics>>

TInit == RegInit /\ l = 1 /\ statics = <<>>

AllIdle == \A t \in Threads : pend[t] = Idle

TNew == /\ Is("new") /\ AllIdle /\ DOMAIN views = {} /\ DOMAIN reg = {}
        /\ statics' = Ev.statics
        /\ UNCHANGED rvars

\* The whole listing: static metrics and dynamic ones, each exactly once.
ListsAll(v, all) ==
  /\ Len(all) = Len(statics) + Cardinality(DOMAIN views[v])
  /\ Range(all) = Range(statics) \cup DOMAIN views[v]

TCallRegister == Is("call") /\ Ev.op = "register" /\ CallRegister(Ev.t, Ev.id, Ev.name, Ev.desc) /\ UNCHANGED statics
TCallDrop  == Is("call") /\ Ev.op = "drop" /\ CallDrop(Ev.t, Ev.id, Ev.how) /\ UNCHANGED statics
TCallOpen  == Is("call") /\ Ev.op = "open" /\ CallOpen(Ev.t, Ev.v) /\ UNCHANGED statics
TCallClose == Is("call") /\ Ev.op = "close" /\ CallClose(Ev.t, Ev.v, Ev.how) /\ UNCHANGED statics
TRet  == Is("ret") /\ Ret(Ev.t, Ev.outcome) /\ UNCHANGED statics
TLin  == /\ l <= Last /\ \E t \in Threads : Lin(t)
         /\ UNCHANGED <<l, statics>>
TList == /\ Is("list") /\ Shows(Ev.v, Ev.dyn) /\ ListsAll(Ev.v, Ev.all)
         /\ Len(Ev.st) = Len(statics) /\ Range(Ev.st) = Range(statics)
         /\ UNCHANGED <<reg, views, pend, statics>>
TInDrop == Is("indrop") /\ InDestructor(Ev.t, Ev.id) /\ UNCHANGED statics

\* Many metrics at once, on one thread with nothing else going on.
TBulkRegister == /\ Is("bulkreg") /\ AllIdle /\ NoViews
                 /\ reg' = [id \in DOMAIN reg \cup Range(Ev.ids) |->
                              IF id \in Range(Ev.ids) THEN [name |-> Ev.name, desc |-> <<>>] ELSE reg[id]]
                 /\ UNCHANGED <<views, pend, statics>>
TBulkDrop == /\ Is("bulkdrop") /\ AllIdle /\ NoViews
             /\ reg' = [id \in DOMAIN reg \ Range(Ev.ids) |-> reg[id]]
             /\ UNCHANGED <<views, pend, statics>>

TNext == \/ TNew \/ TCallRegister \/ TCallDrop \/ TCallOpen \/ TCallClose \/ TRet \/ TLin
         \/ TList \/ TInDrop \/ TBulkRegister \/ TBulkDrop
TSpec == TInit /\ [][TNext]_tvars

\* Checked in every state of every accepted trace.
Frozen == \A v \in DOMAIN views : views[v] = reg
=============================================================================

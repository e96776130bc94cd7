---------------------------- MODULE Trace_Convert ----------------------------
EXTENDS Convert, TraceBase
tvars == <<st, cols, fmeta, opts, rows, dirty, bad, l>>
TInit == ConInit /\ l = 1
TNew == Is("new") /\ Begin(Ev.ss, Ev.dirty, Ev.opts, MapOf(Ev.extra))
TFault == Is("fault") /\ Fault
TFailed == Is("failed") /\ Failed
File(e) == [n |-> e.n, groups |-> e.groups, meta |-> MapOf(e.meta), codecs |-> e.codecs,
            cols |-> TLCEval([j \in 1..Len(e.cols) |-> [name |-> e.cols[j].name, type |-> e.cols[j].type,
                                                        meta |-> MapOf(e.cols[j].meta), vals |-> e.cols[j].vals]])]
TDone == Is("done") /\ LET f == TLCEval(File(Ev.file)) IN Done(Ev.rows, f)
TNext == TNew \/ TFault \/ TFailed \/ TDone
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

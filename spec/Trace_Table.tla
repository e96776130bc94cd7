----------------------------- MODULE Trace_Table -----------------------------
(* Recorded uses of the real Parquet writer, explained by Table. *)
EXTENDS Table, TraceBase
tvars == <<st, cols, fmeta, opts, rows, l>>
TInit == TabInit /\ l = 1
TNew == Is("new") /\ st' = "schema" /\ cols' = <<>> /\ fmeta' = <<>> /\ opts' = <<>> /\ rows' = <<>>
TSchema == Is("schema") /\ SchemaPush(Ev.ss)
TFinalize == Is("finalize") /\ Finalize(Ev.opts, MapOf(Ev.extra))
TPush == Is("push") /\ Push(Ev.ss)
File(e) == [n |-> e.n, groups |-> e.groups, meta |-> MapOf(e.meta), codecs |-> e.codecs,
            cols |-> TLCEval([j \in 1..Len(e.cols) |-> [name |-> e.cols[j].name, type |-> e.cols[j].type,
                                                        meta |-> MapOf(e.cols[j].meta), vals |-> e.cols[j].vals]])]
TClose == Is("closed") /\ LET f == TLCEval(File(Ev)) IN Close(f)
TNext == TNew \/ TSchema \/ TFinalize \/ TPush \/ TClose
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

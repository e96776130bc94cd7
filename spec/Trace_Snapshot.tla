--------------------------- MODULE Trace_Snapshot ---------------------------
(* Recorded histories of real snapshots, explained by Snapshot. *)
EXTENDS Snapshot, TraceBase
tvars == <<m, pend, win, l>>
TInit == SInit /\ l = 1
Quiescent == \A t \in Threads : pend[t] = Idle
TNew == Is("new") /\ Quiescent /\ m' = [i \in Ids |-> Absent] /\ UNCHANGED <<pend, win>>
New == Metric(Ev.kind, Ev.name, Ev.desc, MapOf(Ev.meta), Ev.fmt, Ev.g, Ev.m)
TStatic == Is("static") /\ Quiescent /\ m[Ev.i] = Absent /\ m' = [m EXCEPT ![Ev.i] = New] /\ UNCHANGED <<pend, win>>
TCall == Is("call") /\ Call(Ev.t, Ev)
TReg == Is("reg") /\ Call(Ev.t, [op |-> "reg", i |-> Ev.i, r |-> New])
TSnap == Is("snap") /\ Call(Ev.t, [op |-> "snap", all |-> Ev.all, acc |-> Range(Ev.acc), smeta |-> MapOf(Ev.smeta)])
TRet == Is("ret") /\ Ret(Ev.t)
Obs(o) == IF o.k = "histogram"
          THEN [k |-> o.k, name |-> o.name, meta |-> MapOf(o.meta), g |-> o.g, m |-> o.m, len |-> o.len, c |-> MapOf(o.c)]
          ELSE [k |-> o.k, name |-> o.name, meta |-> MapOf(o.meta), v |-> o.v]
TSnapRet == Is("snapped") /\ SnapRet(Ev.t, [j \in 1..Len(Ev.obs) |-> Obs(Ev.obs[j])], MapOf(Ev.smeta), Ev.t0, Ev.ts, Ev.t1)
\* Many snapshots during tight loops, in a compressed form: reads is a
\* sequence of <<lo, v, hi>> of one only-increasing metric in successive
\* snapshots: lo updates had returned before, hi were begun by the end.
TBurst == /\ Is("burst")
          /\ \A k \in 1..Len(Ev.reads) :
               /\ Ev.reads[k][1] <= Ev.reads[k][2] /\ Ev.reads[k][2] <= Ev.reads[k][3]
               /\ k > 1 => Ev.reads[k - 1][2] <= Ev.reads[k][2]
          /\ UNCHANGED <<m, pend, win>>
\* Another compressed form: one thread registers and drops metrics in a fixed
\* cyclic order (toggles[k] comes or goes in the k-th step).  A snapshot
\* during which at most `steps` steps were begun, the first one after `at`
\* complete ones, shows the metrics of one moment of it.
Odd(n) == n % 2 = 1
Moment(ts, k) == {i \in Range(ts) : Odd(Cardinality({j \in 1..k : ts[j] = i}))}
InCycle(ts, reads) ==
  LET n == Len(ts)
      at == TLCEval([k \in 0..(n - 1) |-> Moment(ts, k)])
  IN \A j \in 1..Len(reads) :
       LET r == reads[j]
           ids == TLCEval(Range(r.ids))
       IN /\ Len(r.ids) = Cardinality(ids)
          /\ \E k \in 0..r.steps : ids = at[(r.at + k) % n]
TCycle == Is("cycle") /\ InCycle(Ev.toggles, Ev.reads) = TRUE /\ UNCHANGED <<m, pend, win>>
\* When an effect takes place matters only relative to the start and the end
\* of snapshots and to the other effects on the same thing, so it need not be
\* tried anywhere else.
Thing(o) == IF o.op \in {"reg", "drop"} THEN 0 ELSE o.i
Now(t) == /\ l <= Last
          /\ pend[t] # Idle /\ pend[t].op # "snap"
          /\ \/ Ev.e \in {"snap", "snapped"}
             \/ Ev.e = "ret" /\ pend[Ev.t].op \notin {"idle", "snap"} /\ Thing(pend[Ev.t]) = Thing(pend[t])
TDo == UNCHANGED l /\ \E t \in Threads : Now(t) /\ (Do(t) \/ Appear(t))
TNext == TNew \/ TStatic \/ TCall \/ TReg \/ TSnap \/ TRet \/ TSnapRet \/ TBurst \/ TCycle \/ TDo
TSpec == TInit /\ [][TNext]_tvars
=============================================================================

------------------------------ MODULE Snapshot ------------------------------
(***************************************************************************)
(* Taking snapshots (C16, C17).  The state is the registered metrics and   *)
(* their values; registrations, drops and updates take effect at one       *)
(* instant between their call and their return (the first recording into   *)
(* a histogram in two: it may show up empty first).  A snapshot has an     *)
(* extent in time; what it may contain is specified by what was the case   *)
(* during it:                                                              *)
(*   - the metrics in it are those registered at one single instant;       *)
(*   - each reading is one the metric had (per bucket for atomic           *)
(*     histograms) between the start and the end.                          *)
(* If nothing else happens meanwhile this is exactly one reading for every *)
(* accepted metric that has something to report.                           *)
(***************************************************************************)
EXTENDS Buckets, FiniteSets, TLC

CONSTANTS Threads, Ids

VARIABLES m,       \* id -> metric
          pend,    \* thread -> call in progress
          win      \* thread -> what was the case since its snapshot began

svars == <<m, pend, win>>

Absent == [st |-> "absent"]
Idle   == [op |-> "idle"]

Lazies == {"lcounter", "lgauge", "lahist", "lrhist"}
Counters == {"counter", "lcounter", "ccounter"}
Gauges == {"gauge", "lgauge", "cgauge"}
Atomics == {"ahist", "lahist", "wahist"}      \* w: another metric's value, handed on
Bulks == {"rhist", "lrhist", "wrhist"}

\* Maps from a sequence of pairs; the last one counts.
RECURSIVE MapOf(_)
MapOf(ps) == IF ps = <<>> THEN <<>> ELSE MapOf(Tail(ps)) @@ (ps[1][1] :> ps[1][2])

Metric(kind, name, desc, meta, fmt, g, mx) ==
  [st |-> "live", kind |-> kind, name |-> name, desc |-> desc, meta |-> meta, fmt |-> fmt,
   on |-> kind \notin Lazies, v |-> Zero, has |-> FALSE, c |-> <<>>, g |-> g, m |-> mx]

(***************************************************************************)
(* Readings.                                                               *)
(***************************************************************************)
KindOf(r) == IF r.kind \in Counters THEN "counter"
             ELSE IF r.kind \in Gauges THEN "gauge"
             ELSE IF r.kind \in Atomics \cup Bulks THEN "histogram" ELSE "none"
Reportable(r) == r.on /\ CASE KindOf(r) = "none" -> FALSE
                           [] KindOf(r) = "histogram" -> r.has
                           [] OTHER -> TRUE
NameOf(r) == IF r.fmt = "" THEN r.name ELSE r.fmt \o ":simple:" \o r.name
MetaOf(r) ==
  LET d == IF r.desc = <<>> THEN <<>> ELSE ("description" :> r.desc[1])
      h == IF KindOf(r) = "histogram"
           THEN ("grouping_power" :> ToString(r.g)) @@ ("max_value_power" :> ToString(r.m)) ELSE <<>>
  IN d @@ h @@ r.meta

\* o: [k, name, meta (a map), v] and for histograms instead of v the
\* configuration g, m, the number of buckets len, and c: the buckets that
\* are not zero.
SameFrame(o, r) ==
  /\ o.k = KindOf(r) /\ o.name = NameOf(r) /\ o.meta = MetaOf(r)
  /\ o.k = "histogram" => o.g = r.g /\ o.m = r.m /\ o.len = TotalBuckets(r.g, r.m)
SameValue(o, r) == IF o.k = "histogram" THEN o.c = r.c ELSE o.v = r.v
Matches(o, r) == Reportable(r) /\ SameFrame(o, r) /\ SameValue(o, r)

Cnt(c, b) == IF b \in DOMAIN c THEN c[b] ELSE Zero
\* One of the states R of one metric, bucket by bucket for atomic histograms.
MatchesOne(o, R) ==
  LET P == {r \in R : Reportable(r)}
  IN /\ P # {}
     /\ LET r1 == CHOOSE r \in P : TRUE
        IN IF r1.kind \in Atomics
           THEN /\ SameFrame(o, r1)
                /\ \A b \in DOMAIN o.c \cup UNION {DOMAIN r.c : r \in P} : \E r \in P : Cnt(o.c, b) = Cnt(r.c, b)
           ELSE \E r \in P : Matches(o, r)

Live(f) == {i \in Ids : f[i].st = "live"}

\* w: a window; acc: accepted names (all of them if all).
Explains(w, all, acc, obs) ==
  LET Acc(r) == all \/ r.name \in acc
      O == 1..Len(obs)
      quiet == Cardinality(w.lives) = 1 /\ \A i \in Ids : Cardinality(w.states[i]) = 1
      One1(i) == CHOOSE r \in w.states[i] : TRUE
  IN IF quiet
     THEN LET E == {i \in Ids : One1(i).st = "live" /\ Acc(One1(i)) /\ Reportable(One1(i))}
          IN /\ Len(obs) = Cardinality(E)
             /\ \A j \in O : Cardinality({k \in O : obs[k].k = obs[j].k /\ obs[k] = obs[j]})
                             = Cardinality({i \in E : Matches(obs[j], One1(i))})
     \* otherwise the names of the metrics are distinct
     ELSE LET All == UNION w.lives
              R == TLCEval([i \in All |-> {r \in w.states[i] : r.st = "live"}])
              F == TLCEval([i \in All |-> CHOOSE r \in R[i] : TRUE])
              A == TLCEval({i \in All : Acc(F[i])})
              Of == TLCEval([i \in A |-> LET nm == NameOf(F[i]) IN {j \in O : obs[j].name = nm}])
              Fits == TLCEval([i \in A |-> IF Of[i] = {} THEN \E r \in R[i] : ~Reportable(r)
                                           ELSE \E j \in Of[i] : Of[i] = {j} /\ MatchesOne(obs[j], R[i])])
          IN \E L \in w.lives :
               /\ \A i \in L \cap A : Fits[i]
               /\ Len(obs) = Cardinality({i \in L \cap A : Of[i] # {}})

(***************************************************************************)
(* Transitions.                                                            *)
(***************************************************************************)
SInit == m = [i \in Ids |-> Absent] /\ pend = [t \in Threads |-> Idle] /\ win = [t \in Threads |-> <<>>]

\* Every state the metrics go through is seen by every open window.
Seen(f) == win' = [t \in Threads |->
  IF win[t] = <<>> THEN <<>>
  ELSE [lives |-> win[t].lives \cup {Live(f)}, states |-> [i \in Ids |-> win[t].states[i] \cup {f[i]}]]]
Become(f) == m' = f /\ Seen(f)

Call(t, o) == /\ pend[t] = Idle
              /\ pend' = [pend EXCEPT ![t] = o @@ [done |-> FALSE]]
              /\ IF o.op = "snap"
                 THEN win' = [win EXCEPT ![t] = [lives |-> {Live(m)}, states |-> [i \in Ids |-> {m[i]}]]]
                 ELSE UNCHANGED win
              /\ UNCHANGED m

Effect(r, o) ==
  LET q == [r EXCEPT !.on = TRUE]
  IN CASE o.op = "force" -> q
       [] o.op = "set" -> [q EXCEPT !.v = o.a]
       [] o.op = "add" -> [q EXCEPT !.v = Add(@, o.a)]
       [] o.op = "rec" -> IF InRange(r.m, o.a)
                          THEN LET b == BucketOf(r.g, o.a)
                               IN [q EXCEPT !.has = TRUE, !.c = (b :> Add(Cnt(@, b), One)) @@ @]
                          ELSE q
       [] o.op = "upd" -> IF o.len = TotalBuckets(r.g, r.m) THEN [q EXCEPT !.has = TRUE, !.c = MapOf(o.ps)] ELSE q

Do(t) ==
  /\ pend[t] # Idle /\ pend[t].op # "snap" /\ ~pend[t].done
  /\ LET o == pend[t] IN
     CASE o.op = "reg"  -> m[o.i] = Absent /\ Become([m EXCEPT ![o.i] = o.r])
       [] o.op = "drop" -> m[o.i] # Absent /\ Become([m EXCEPT ![o.i] = Absent])
       [] OTHER -> m[o.i] # Absent /\ Become([m EXCEPT ![o.i] = Effect(@, o)])
  /\ pend' = [pend EXCEPT ![t].done = TRUE]

\* A histogram shows up empty while its first recording is in progress.
Appear(t) ==
  /\ \E u \in Threads : win[u] # <<>>
  /\ pend[t].op \in {"rec", "upd"} /\ ~pend[t].done
  /\ LET r == m[pend[t].i] IN
     /\ r.st = "live" /\ ~r.has
     /\ Effect(r, pend[t]).has
     /\ Become([m EXCEPT ![pend[t].i] = [r EXCEPT !.on = TRUE, !.has = TRUE]])
  /\ UNCHANGED pend

Ret(t) == /\ pend[t] # Idle /\ pend[t].op # "snap" /\ pend[t].done
          /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<m, win>>

\* smeta: the snapshot's own metadata; ts: its time; t0, t1: the clock before and after.
SnapRet(t, obs, smeta, t0, ts, t1) ==
  /\ pend[t].op = "snap"
  /\ Explains(win[t], pend[t].all, pend[t].acc, obs) = TRUE      \* a value, not a choice of steps
  /\ smeta = pend[t].smeta
  /\ t0 <= ts /\ ts <= t1
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ win' = [win EXCEPT ![t] = <<>>]
  /\ UNCHANGED m
=============================================================================

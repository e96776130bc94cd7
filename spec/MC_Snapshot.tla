---------------------------- MODULE MC_Snapshot ----------------------------
(***************************************************************************)
(* The algorithm of the snapshotter - hold a view, visit each metric of it *)
(* and read it - against the specification.  Mode "nofreeze" does not keep *)
(* the registry from changing while it visits; mode "early" returns the    *)
(* values of the previous snapshot for what it already knew.               *)
(***************************************************************************)
EXTENDS Snapshot

CONSTANTS MaxOps, Mode, Kinds

VARIABLES todo,     \* thread -> metrics still to be visited
          got,      \* thread -> readings so far
          part,     \* thread -> buckets of the current histogram read so far
          old,      \* readings of the last finished snapshot
          next,     \* next unused id
          n,        \* steps used
          ok

mvars == <<m, pend, win, todo, got, part, old, next, n, ok>>
MInit == /\ SInit /\ todo = [t \in Threads |-> {}] /\ got = [t \in Threads |-> <<>>]
         /\ part = [t \in Threads |-> <<>>] /\ old = <<>> /\ next = 1 /\ n = 0 /\ ok = TRUE

Holding == {t \in Threads : pend[t] # Idle /\ pend[t].op = "snap" /\ pend[t].holding}
Name(i) == ToString(i)
Start(t) ==
  /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<todo, got, part, old, ok>>
  /\ \/ /\ next \in Ids /\ next' = next + 1
        /\ \E k \in Kinds : Call(t, [op |-> "reg", i |-> next, r |-> Metric(k, Name(next), <<>>, <<>>, "", 0, 1)])
     \/ /\ \E i \in Ids : /\ m[i].st = "live" /\ \A u \in Threads : (pend[u].op \notin {"idle", "snap"} => pend[u].i # i)
                          /\ \/ Call(t, [op |-> "drop", i |-> i])
                             \/ m[i].kind = "counter" /\ Call(t, [op |-> "add", i |-> i, a |-> One])
                             \/ m[i].kind = "ahist" /\ \E v \in {0, 1} : Call(t, [op |-> "rec", i |-> i, a |-> OfNat(v)])
        /\ UNCHANGED next
     \/ Call(t, [op |-> "snap", all |-> TRUE, acc |-> {}, smeta |-> <<>>, holding |-> FALSE]) /\ UNCHANGED next

Effects(t) ==
  /\ UNCHANGED <<todo, got, part, old, next, n, ok>>
  /\ \/ Appear(t)
     \/ /\ pend[t] # Idle /\ pend[t].op \in {"reg", "drop"} => (Mode = "nofreeze" \/ Holding = {})
        /\ Do(t)
     \/ Ret(t)

Acquire(t) ==
  /\ pend[t] # Idle /\ pend[t].op = "snap" /\ ~pend[t].holding
  /\ pend' = [pend EXCEPT ![t].holding = TRUE]
  /\ todo' = [todo EXCEPT ![t] = Live(m)] /\ got' = [got EXCEPT ![t] = <<>>]
  /\ UNCHANGED <<m, win, part, old, next, n, ok>>

Reading(i) ==
  IF m[i].kind = "counter" THEN <<[k |-> "counter", name |-> NameOf(m[i]), meta |-> MetaOf(m[i]), v |-> m[i].v]>>
  ELSE <<>>
Cached(i) == SelectSeq(old, LAMBDA o : o.name = Name(i))
Visit(t) ==
  /\ t \in Holding
  /\ \E i \in todo[t] :
       /\ todo' = [todo EXCEPT ![t] = @ \ {i}]
       /\ IF m[i].st # "live" THEN UNCHANGED <<got, part>>
          ELSE IF m[i].kind = "counter"
          THEN /\ got' = [got EXCEPT ![t] = @ \o (IF Mode = "early" /\ Cached(i) # <<>> THEN Cached(i) ELSE Reading(i))]
               /\ UNCHANGED part
          \* a histogram is read bucket by bucket
          ELSE IF m[i].has THEN part' = [part EXCEPT ![t] = <<i, <<>>, 0>>] /\ UNCHANGED got
          ELSE UNCHANGED <<got, part>>
  /\ part[t] = <<>>
  /\ UNCHANGED <<m, pend, win, old, next, n, ok>>

ReadBucket(t) ==
  /\ part[t] # <<>>
  /\ IF m[part[t][1]].st # "live" THEN part' = [part EXCEPT ![t] = <<>>] /\ UNCHANGED got     \* gone
     ELSE
     LET i == part[t][1]  b == part[t][3]  last == TotalBuckets(m[i].g, m[i].m) - 1
         c == IF Cnt(m[i].c, b) = Zero THEN part[t][2] ELSE (b :> Cnt(m[i].c, b)) @@ part[t][2]
     IN IF b < last THEN part' = [part EXCEPT ![t] = <<i, c, b + 1>>] /\ UNCHANGED got
        ELSE /\ part' = [part EXCEPT ![t] = <<>>]
             /\ got' = [got EXCEPT ![t] = Append(@, [k |-> "histogram", name |-> NameOf(m[i]), meta |-> MetaOf(m[i]),
                         g |-> m[i].g, m |-> m[i].m, len |-> last + 1, c |-> c])]
  /\ UNCHANGED <<m, pend, win, todo, old, next, n, ok>>

Finish(t) ==
  /\ t \in Holding /\ todo[t] = {} /\ part[t] = <<>>
  /\ ok' = (ok /\ Explains(win[t], TRUE, {}, got[t]))
  /\ pend' = [pend EXCEPT ![t] = Idle] /\ win' = [win EXCEPT ![t] = <<>>]
  /\ old' = IF Mode = "early" THEN got[t] ELSE <<>>
  /\ UNCHANGED <<m, todo, got, part, next, n>>

MNext == \E t \in Threads : Start(t) \/ Effects(t) \/ Acquire(t) \/ Visit(t) \/ ReadBucket(t) \/ Finish(t)
MSpec == MInit /\ [][MNext]_mvars
Inv == ok
=============================================================================

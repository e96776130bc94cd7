-------------------------------- MODULE Cell --------------------------------
(***************************************************************************)
(* Counter and Gauge (C05, C06): one wrapping machine word that any number *)
(* of threads operate on.                                                  *)
(*                                                                         *)
(* An operation is three steps: Call, an internal linearization step Lin,  *)
(* and Ret.  That the code updates a relaxed atomic without a lock is why  *)
(* the effect is a separate internal step: nothing that can be logged      *)
(* marks it.  A gauge is the same cell read as a two's complement number,  *)
(* so wrap-around in either direction is Add/Sub modulo the word size.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSetsExt, TLC, Words

CONSTANTS Threads, Kind       \* Kind \in {"counter", "gauge"}

VARIABLES val,                \* the word
          pend                \* per thread: Idle or the operation in progress

cvars == <<val, pend>>

Idle == [st |-> "idle"]

CounterOps == {"increment", "add", "set", "reset", "value", "metric", "entry"}
GaugeOps   == CounterOps \cup {"decrement", "sub"}
OpNames    == IF Kind = "counter" THEN CounterOps ELSE GaugeOps
Reads      == {"value", "metric", "entry"}

\* The word after the operation.
Effect(v, op, arg) ==
  CASE op = "increment" -> Add(v, One)
    [] op = "add"       -> Add(v, arg)
    [] op = "decrement" -> Sub(v, One)
    [] op = "sub"       -> Sub(v, arg)
    [] op = "set"       -> arg
    [] op = "reset"     -> Zero
    [] op \in Reads     -> v

\* Everything returns the word from just before the operation took effect
\* (for a read that is the word that was read).
Reply(v) == v

CellInit(v0) == /\ val = v0
                /\ pend = [t \in Threads |-> Idle]

Call(t, op, arg) ==
  /\ pend[t] = Idle
  /\ op \in OpNames
  /\ pend' = [pend EXCEPT ![t] = [st |-> "called", op |-> op, arg |-> arg]]
  /\ UNCHANGED val

Lin(t) ==
  /\ pend[t].st = "called"
  /\ val' = Effect(val, pend[t].op, pend[t].arg)
  /\ pend' = [pend EXCEPT ![t] = [st |-> "done", op |-> pend[t].op,
                                  arg |-> pend[t].arg, ret |-> Reply(val)]]

Ret(t, r) ==
  /\ pend[t].st = "done"
  /\ r = pend[t].ret
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED val

(***************************************************************************)
(* A burst is n operations of one kind with one operand in a row by one    *)
(* thread, of which only the start, the end and the sum of all returned    *)
(* words are logged.  Because operations take effect one at a time and     *)
(* return the word from just before, the steps telescope:                  *)
(*     final - initial = sum over all operations of (after - before)       *)
(* where for a relative operation (after - before) is its delta and for an *)
(* absolute one it is (what it wrote - what it returned).  So a lost or    *)
(* doubled update and a stale return value all show when everything is     *)
(* quiet again (Conservation in MC_Cell is the same law).  If furthermore  *)
(* every operation has the same delta d, the returned words must be        *)
(* initial, initial + d, ... each exactly once, which fixes their sum.     *)
(***************************************************************************)
RECURSIVE Times(_, _)
Times(a, n) == IF n = 0 THEN Zero
               ELSE LET h == Times(a, n \div 2)
                        d == Add(h, h)
                    IN  IF n % 2 = 1 THEN Add(d, a) ELSE d

Relative == {"increment", "add", "decrement", "sub"}
Absolute == {"set", "reset"}

Delta(op, arg) == CASE op = "increment" -> One
                    [] op = "add"       -> arg
                    [] op = "decrement" -> Neg(One)
                    [] op = "sub"       -> Neg(arg)

BurstCall(t, op, arg, n) ==
  /\ pend[t] = Idle
  /\ op \in OpNames \cap (Relative \cup Absolute)
  /\ pend' = [pend EXCEPT ![t] = [st |-> "burst", op |-> op, arg |-> arg, n |-> n]]
  /\ UNCHANGED val

\* s is the sum of the words the n operations returned.
BurstRet(t, s) ==
  /\ pend[t].st = "burst"
  /\ val' = Add(val, IF pend[t].op \in Relative
                     THEN Times(Delta(pend[t].op, pend[t].arg), pend[t].n)
                     ELSE Sub(Times(Effect(val, pend[t].op, pend[t].arg), pend[t].n), s))
  /\ pend' = [pend EXCEPT ![t] = Idle]

\* All of N operations (N even) had delta d, starting at v0.
UniformSum(v0, d, N) == Add(Times(v0, N), Times(Times(d, N \div 2), N - 1))

(***************************************************************************)
(* The tally of a race: only what every operation returned is kept, as a   *)
(* set of edges [v, op, a, n]: n operations op(a) returned v.  An          *)
(* operation that returned v took the word from v to Effect(v, op, a), so  *)
(* "one at a time" says the edges form one trail from the word before the  *)
(* race to the word after it: every word is left as often as it is         *)
(* entered (except for the two ends), and all of it is reached from the    *)
(* start.  This is necessary and sufficient for some sequential order to   *)
(* explain the race, and unlike the sum it needs no assumption about which *)
(* operations take part.                                                   *)
(***************************************************************************)
RECURSIVE Spread(_, _, _)
Spread(S, front, succ) ==
  LET new == UNION {succ[v] : v \in front} \ S
  IN  IF new = {} THEN S ELSE Spread(S \cup new, new, succ)
Trail(v0, v1, edges) ==
  LET after == TLCEval([e \in edges |-> Effect(e.v, e.op, e.a)])
      nodes == {v0, v1} \cup {e.v : e \in edges} \cup {after[e] : e \in edges}
      succ  == TLCEval(FoldSet(LAMBDA e, f : [f EXCEPT ![e.v] = @ \cup {after[e]}],
                               [v \in nodes |-> {}], edges))
      \* entered minus left, counting the start as entered and the end as left
      zero  == [v \in nodes |-> (IF v = v0 THEN 1 ELSE 0) - (IF v = v1 THEN 1 ELSE 0)]
      bal   == TLCEval(FoldSet(LAMBDA e, f : [f EXCEPT ![e.v] = @ - e.n, ![after[e]] = @ + e.n],
                               zero, edges))
  IN  /\ \A v \in nodes : bal[v] = 0
      /\ nodes \subseteq Spread({v0}, {v0}, succ)

Race(edges, v1) ==
  /\ \A t \in Threads : pend[t] = Idle
  /\ \A e \in edges : e.op \in OpNames
  /\ Trail(val, v1, edges) = TRUE
  /\ val' = v1 /\ UNCHANGED pend

\* A read while no operation is in progress, by whatever path.
Quiet(v) ==
  /\ \A t \in Threads : pend[t] = Idle
  /\ v = val
  /\ UNCHANGED cvars
=============================================================================

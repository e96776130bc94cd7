------------------------------- MODULE RwHist -------------------------------
(***************************************************************************)
(* Bulk-updated histograms (C09): a register that holds nothing or one     *)
(* complete set of bucket counts.  Data is a sequence of runs <<n, v>>     *)
(* (n buckets with value v), in the unique shortest form.  Before the very *)
(* first update takes effect the register may already be allocated: all    *)
(* zeros, while that update is in progress.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Threads, Zero0      \* Zero0: how a zero count is written

VARIABLES cur,      \* <<>> or <<data>>
          size,     \* number of buckets
          pend
rwvars == <<cur, size, pend>>

Idle == [st |-> "idle"]
RECURSIVE Length(_)
Length(d) == IF d = <<>> THEN 0 ELSE d[1][1] + Length(Tail(d))
Zeros == << <<size, Zero0>> >>

RwInit(n) == cur = <<>> /\ size = n /\ pend = [t \in Threads |-> Idle]

UpdCall(t, d) == /\ pend[t] = Idle
                 /\ pend' = [pend EXCEPT ![t] = [st |-> "upd", d |-> d]]
                 /\ UNCHANGED <<cur, size>>
LoadCall(t) == /\ pend[t] = Idle
               /\ pend' = [pend EXCEPT ![t] = [st |-> "load"]]
               /\ UNCHANGED <<cur, size>>

Right(t) == Length(pend[t].d) = size

Allocate == /\ cur = <<>> /\ \E t \in Threads : pend[t].st = "upd" /\ Right(t)
            /\ cur' = <<Zeros>> /\ UNCHANGED <<size, pend>>
Apply(t) == /\ pend[t].st = "upd" /\ Right(t)
            /\ cur' = <<pend[t].d>>
            /\ pend' = [pend EXCEPT ![t] = [st |-> "updated", ok |-> TRUE]]
            /\ UNCHANGED size
Refuse(t) == /\ pend[t].st = "upd" /\ ~Right(t)
             /\ pend' = [pend EXCEPT ![t] = [st |-> "updated", ok |-> FALSE]]
             /\ UNCHANGED <<cur, size>>
Take(t) == /\ pend[t].st = "load"
           /\ pend' = [pend EXCEPT ![t] = [st |-> "loaded", r |-> cur]]
           /\ UNCHANGED <<cur, size>>
Lin == Allocate \/ \E t \in Threads : Apply(t) \/ Refuse(t) \/ Take(t)

UpdRet(t, ok) == /\ pend[t].st = "updated" /\ ok = pend[t].ok
                 /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<cur, size>>
LoadRet(t, r) == /\ pend[t].st = "loaded" /\ r = pend[t].r
                 /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<cur, size>>
=============================================================================

------------------------------ MODULE MC_Cell ------------------------------
(***************************************************************************)
(* Exhaustive check of Cell with tiny words.  base/sum are ghosts: the     *)
(* last absolute value written and the sum of all relative updates that    *)
(* took effect since.                                                      *)
(***************************************************************************)
EXTENDS Cell, FiniteSets

CONSTANTS Args, MaxOps

MCArgs == {[i \in 1..NLimbs |-> IF i = 1 THEN n ELSE 0] : n \in 0..(Base-1)}

VARIABLES base, sum, nops,
          tally       \* edges of the operations that took effect (if Tallied)
CONSTANT Tallied

vars == <<val, pend, base, sum, nops, tally>>

Edge(v, op, a) == [v |-> v, op |-> op, a |-> a]
Tally(e) == tally' = IF ~Tallied THEN tally
                     ELSE IF e \in DOMAIN tally THEN [tally EXCEPT ![e] = @ + 1]
                     ELSE (e :> 1) @@ tally

Init == /\ CellInit(Zero)
        /\ base = Zero /\ sum = Zero /\ nops = 0 /\ tally = <<>>

DeltaOf(op, arg) == IF op \in Reads THEN Zero ELSE Delta(op, arg)

MCCall(t) == /\ nops < MaxOps
             /\ \E op \in OpNames \ {"metric", "entry"} :
                  \E a \in IF op \in {"add", "sub", "set"} THEN Args ELSE {Zero} :
                     Call(t, op, a)
             /\ nops' = nops + 1
             /\ UNCHANGED <<base, sum, tally>>

MCLin(t) == /\ Lin(t)
            /\ LET op == pend[t].op IN
               IF op \in {"set", "reset"}
               THEN base' = Effect(val, op, pend[t].arg) /\ sum' = Zero
               ELSE base' = base /\ sum' = Add(sum, DeltaOf(op, pend[t].arg))
            /\ Tally(Edge(val, pend[t].op, pend[t].arg))
            /\ UNCHANGED nops

MCRet(t) == /\ pend[t].st = "done"
            /\ Ret(t, pend[t].ret)
            /\ UNCHANGED <<base, sum, nops, tally>>

Next == \E t \in Threads : MCCall(t) \/ MCLin(t) \/ MCRet(t)

Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(MCLin(t)) /\ WF_vars(MCRet(t))

TypeOK == val \in Word /\ \A t \in Threads : pend[t].st \in {"idle", "called", "done"}

\* No update lost, none applied twice.
Conservation == val = Add(base, sum)

\* The operations that took effect, one at a time, are chained: the value
\* only ever changes by the effect of exactly one called operation.
OneAtATime == [][ val' # val =>
   \E t \in Threads : /\ pend[t].st = "called" /\ pend'[t].st = "done"
                      /\ val' = Effect(val, pend[t].op, pend[t].arg)
                      /\ pend'[t].ret = val
                      /\ \A u \in Threads \ {t} : pend'[u] = pend[u] ]_vars

(***************************************************************************)
(* A broken design for comparison: the update is a separate read and       *)
(* write.  Conservation must fail for it (run with TornSpec).              *)
(***************************************************************************)
TornRead(t) == /\ pend[t].st = "called"
               /\ pend' = [pend EXCEPT ![t] = [st |-> "torn", op |-> pend[t].op,
                                               arg |-> pend[t].arg, ret |-> val]]
               /\ UNCHANGED <<val, base, sum, nops, tally>>
TornWrite(t) == /\ pend[t].st = "torn"
                /\ val' = Effect(pend[t].ret, pend[t].op, pend[t].arg)
                /\ pend' = [pend EXCEPT ![t].st = "done"]
                /\ IF pend[t].op \in Absolute
                   THEN base' = val' /\ sum' = Zero
                   ELSE base' = base /\ sum' = Add(sum, DeltaOf(pend[t].op, pend[t].arg))
                /\ Tally(Edge(pend[t].ret, pend[t].op, pend[t].arg))
                /\ UNCHANGED nops
TornSpec == Init /\ [][\E t \in Threads : MCCall(t) \/ TornRead(t) \/ TornWrite(t) \/ MCRet(t)]_vars

\* What the tally of a race has to look like when it is over, from the word 0.
OneTrail == Trail(Zero, val, {[v |-> e.v, op |-> e.op, a |-> e.a, n |-> tally[e]] : e \in DOMAIN tally})

(***************************************************************************)
(* A second broken design: the absolute operations subtract what they read *)
(* earlier.  No amount is lost (the telescoped sum still holds), but the   *)
(* word passes through values nothing has put there, and OneTrail fails.   *)
(***************************************************************************)
SplitWrite(t) == /\ pend[t].st = "torn"
                 /\ LET now == Effect(pend[t].ret, pend[t].op, pend[t].arg)
                    IN  val' = Add(val, Sub(now, pend[t].ret))
                 /\ pend' = [pend EXCEPT ![t].st = "done"]
                 /\ Tally(Edge(pend[t].ret, pend[t].op, pend[t].arg))
                 /\ UNCHANGED <<base, sum, nops>>
SplitSpec == Init /\ [][\E t \in Threads : MCCall(t) \/ TornRead(t) \/ SplitWrite(t) \/ MCRet(t)]_vars

\* Every operation that is called returns.
Responsive == \A t \in Threads : (pend[t].st = "called") ~> (pend[t].st = "idle")
=============================================================================

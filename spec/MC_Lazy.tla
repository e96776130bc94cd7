------------------------------- MODULE MC_Lazy -------------------------------
EXTENDS Lazy
CONSTANTS MaxOps
VARIABLES nops, runs
vars == <<cell, obj, addr, pend, nops, runs>>

Init == LazyInit /\ nops = 0 /\ runs = 0
Env(t) == /\ nops < MaxOps /\ nops' = nops + 1
          /\ \E op \in {"force", "get", "value"} : Call(t, op)
          /\ UNCHANGED runs
Start(t) == InitStart(t, runs + 1) /\ runs' = runs + 1 /\ UNCHANGED nops
End(t) == (\E h \in {"ok", "panic"} : InitEnd(t, h)) /\ UNCHANGED <<nops, runs>>
Sys(t) == \/ Lin(t) /\ UNCHANGED <<nops, runs>>
          \/ pend[t].st = "done" /\ Ret(t, pend[t].ret, 0) /\ UNCHANGED <<nops, runs>>
Next == \E t \in Threads : Env(t) \/ Start(t) \/ End(t) \/ Sys(t)
Spec == Init /\ [][Next]_vars
        /\ \A t \in Threads : WF_vars(Start(t)) /\ WF_vars(End(t)) /\ WF_vars(Sys(t))

AtMostOnce == runs <= 1
\* Once set, set for good; once poisoned, never set.
Final == [][(cell = "set" => cell' = "set" /\ obj' = obj) /\ (cell = "poisoned" => cell' = "poisoned")]_vars
NothingBefore == \A t \in Threads : (pend[t].st = "done" /\ pend[t].ret # Panicked /\ pend[t].ret # <<>>) => cell = "set"
Responsive == \A t \in Threads : (pend[t].st # "idle") ~> (pend[t].st = "idle")
\* Only a force starts the initializer.
OnlyForce == \A t \in Threads : pend[t].st \in {"init", "ended"} => pend[t].op = "force"

\* Broken: a panicking initializer is run again.
BadPublish(t) == /\ pend[t].st = "ended" /\ pend[t].how = "panic"
                 /\ cell' = "unset" /\ Done(t, Panicked) /\ UNCHANGED <<obj, addr, nops, runs>>
BadSpec == Init /\ [][Next \/ \E t \in Threads : BadPublish(t)]_vars
=============================================================================

---------------------------- MODULE MC_AtomicHist ----------------------------
(***************************************************************************)
(* The algorithm, step by step, against what AtomicHist allows: the bucket *)
(* array is allocated by the first recording (once), a recording is one    *)
(* atomic add, a load first looks whether there is an array and then reads *)
(* the buckets one after the other.                                        *)
(***************************************************************************)
EXTENDS AtomicHist

CONSTANTS MaxOps, NB,         \* buckets 0..NB-1
          Variant             \* "ok" or a broken algorithm

VARIABLES mem,                \* <<>> or <<[buckets]>>: the array
          pc,                 \* per thread
          nops
vars == <<started, finished, shown, some, pend, mem, pc, nops>>

B == 0..(NB - 1)
Zeros == [b \in B |-> 0]
Init == AHInit /\ mem = <<>> /\ pc = [t \in Threads |-> [at |-> "idle"]] /\ nops = 0

Call(t) ==
  /\ pc[t].at = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED mem
  /\ \/ \E b \in B : IncCall(t, <<b>>, 1) /\ pc' = [pc EXCEPT ![t] = [at |-> "look", b |-> b]]
     \/ IncCall(t, <<>>, 1) /\ pc' = [pc EXCEPT ![t] = [at |-> "reject"]]
     \/ LoadCall(t) /\ pc' = [pc EXCEPT ![t] = [at |-> "peek"]]

Reject(t) == /\ pc[t].at = "reject" /\ IncRet(t, FALSE) /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]]
             /\ UNCHANGED <<mem, nops>>
\* One recording allocates; the others wait for it or find it done.
Look(t) == /\ pc[t].at = "look"
           /\ IF Variant = "race"      \* looks and allocates in two steps
              THEN IF mem = <<>> THEN pc' = [pc EXCEPT ![t].at = "alloc"] /\ UNCHANGED mem
                                 ELSE pc' = [pc EXCEPT ![t].at = "add"] /\ UNCHANGED mem
              ELSE /\ mem' = IF mem = <<>> THEN <<Zeros>> ELSE mem
                   /\ pc' = [pc EXCEPT ![t].at = "add"]
           /\ UNCHANGED <<ahvars, nops>>
Alloc(t) == /\ pc[t].at = "alloc" /\ mem' = <<Zeros>> /\ pc' = [pc EXCEPT ![t].at = "add"]
            /\ UNCHANGED <<ahvars, nops>>
Add(t) == /\ pc[t].at = "add"
          /\ IF Variant = "torn"
             THEN pc' = [pc EXCEPT ![t] = [at |-> "store", b |-> pc[t].b, v |-> mem[1][pc[t].b]]] /\ UNCHANGED mem
             ELSE mem' = <<[mem[1] EXCEPT ![pc[t].b] = @ + 1]>> /\ pc' = [pc EXCEPT ![t] = [at |-> "ret"]]
          /\ UNCHANGED <<ahvars, nops>>
Store(t) == /\ pc[t].at = "store" /\ mem' = <<[mem[1] EXCEPT ![pc[t].b] = pc[t].v + 1]>>
            /\ pc' = [pc EXCEPT ![t] = [at |-> "ret"]] /\ UNCHANGED <<ahvars, nops>>
Return(t) == /\ pc[t].at = "ret" /\ IncRet(t, TRUE) /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]]
             /\ UNCHANGED <<mem, nops>>
Peek(t) == /\ pc[t].at = "peek"
           /\ pc' = [pc EXCEPT ![t] = IF mem = <<>> THEN [at |-> "loaded", r |-> <<>>]
                                      ELSE [at |-> "read", i |-> 0, c |-> <<>>]]
           /\ UNCHANGED <<ahvars, mem, nops>>
Read(t) == /\ pc[t].at = "read"
           /\ LET i == pc[t].i
                  c == IF mem[1][i] = 0 THEN pc[t].c ELSE (i :> mem[1][i]) @@ pc[t].c
              IN pc' = [pc EXCEPT ![t] = IF i = NB - 1 THEN [at |-> "loaded", r |-> <<c>>]
                                         ELSE [at |-> "read", i |-> i + 1, c |-> c]]
           /\ UNCHANGED <<ahvars, mem, nops>>
Loaded(t) == /\ pc[t].at = "loaded" /\ LoadRet(t, pc[t].r) /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]]
             /\ UNCHANGED <<mem, nops>>

Steps(t) == Reject(t) \/ Look(t) \/ Alloc(t) \/ Add(t) \/ Store(t) \/ Return(t) \/ Peek(t) \/ Read(t) \/ Loaded(t)
Next == \E t \in Threads : Call(t) \/ Steps(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Steps(t))

\* Every load the algorithm completes is one that AtomicHist allows.
LoadsAllowed == \A t \in Threads : pc[t].at = "loaded" => LoadAllowed(t, pc[t].r)
Exact == (\A t \in Threads : pc[t].at = "idle") =>
            IF mem = <<>> THEN finished = <<>> ELSE \A b \in B : mem[1][b] = At(finished, b)
Finishes == \A t \in Threads : (pc[t].at # "idle") ~> (pc[t].at = "idle")
=============================================================================

------------------------------ MODULE MC_RwHist ------------------------------
(***************************************************************************)
(* The algorithm (allocate once, then copy bucket by bucket under a write  *)
(* lock; loads copy bucket by bucket under a read lock) refines RwHist:    *)
(* the register of RwHist is updated at the moment the write lock is       *)
(* released.  Broken variants: no lock, and a lock only for writers.       *)
(***************************************************************************)
EXTENDS RwHist, FiniteSets
CONSTANTS MaxOps, Variant
VARIABLES mem,      \* <<>> or <<buckets>>, two buckets
          lock,     \* set of holders
          wr,       \* the writer or 0
          pc, nops
vars == <<cur, size, pend, mem, lock, wr, pc, nops>>
D(v) == << <<2, v>> >>
Wrong == << <<1, 9>> >>
Init == RwInit(2) /\ mem = <<>> /\ lock = {} /\ wr = 0 /\ pc = [t \in Threads |-> [at |-> "idle"]] /\ nops = 0
Rle(b) == IF b[1] = b[2] THEN << <<2, b[1]>> >> ELSE << <<1, b[1]>>, <<1, b[2]>> >>

Call(t) == /\ pc[t].at = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<mem, lock, wr>>
           /\ \/ UpdCall(t, D(nops + 1)) /\ pc' = [pc EXCEPT ![t] = [at |-> "alloc", v |-> nops + 1]]
              \/ UpdCall(t, Wrong) /\ pc' = [pc EXCEPT ![t] = [at |-> "refuse"]]
              \/ LoadCall(t) /\ pc' = [pc EXCEPT ![t] = [at |-> "peek"]]
RefuseStep(t) == pc[t].at = "refuse" /\ Refuse(t) /\ pc' = [pc EXCEPT ![t].at = "uret"] /\ UNCHANGED <<mem, lock, wr, nops>>
Alloc(t) == /\ pc[t].at = "alloc"
            /\ IF mem = <<>> THEN mem' = << <<0, 0>> >> /\ Allocate ELSE UNCHANGED <<mem, rwvars>>
            /\ pc' = [pc EXCEPT ![t].at = "wlock"] /\ UNCHANGED <<lock, wr, nops>>
WLock(t) == /\ pc[t].at = "wlock" /\ wr = 0 /\ (lock = {} \/ Variant # "ok")
            /\ wr' = t /\ pc' = [pc EXCEPT ![t].at = "w1"] /\ UNCHANGED <<rwvars, mem, lock, nops>>
W1(t) == pc[t].at = "w1" /\ mem' = <<[mem[1] EXCEPT ![1] = pc[t].v]>> /\ pc' = [pc EXCEPT ![t].at = "w2"]
         /\ UNCHANGED <<rwvars, lock, wr, nops>>
W2(t) == /\ pc[t].at = "w2" /\ mem' = <<[mem[1] EXCEPT ![2] = pc[t].v]>> /\ pc' = [pc EXCEPT ![t].at = "uret"]
         /\ wr' = 0 /\ Apply(t) /\ UNCHANGED <<lock, nops>>
URet(t) == pc[t].at = "uret" /\ UpdRet(t, pend[t].ok) /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]] /\ UNCHANGED <<mem, lock, wr, nops>>
Peek(t) == /\ pc[t].at = "peek" /\ (mem # <<>> => wr = 0 \/ Variant # "ok")
           /\ IF mem = <<>> THEN pc' = [pc EXCEPT ![t] = [at |-> "take", r |-> <<>>]] /\ UNCHANGED <<lock, rwvars>>
              ELSE lock' = lock \cup {t} /\ pc' = [pc EXCEPT ![t] = [at |-> "r1"]] /\ UNCHANGED rwvars
           /\ UNCHANGED <<mem, wr, nops>>
R1(t) == pc[t].at = "r1" /\ pc' = [pc EXCEPT ![t] = [at |-> "r2", a |-> mem[1][1]]] /\ UNCHANGED <<rwvars, mem, lock, wr, nops>>
R2(t) == /\ pc[t].at = "r2" /\ lock' = lock \ {t} /\ Take(t)
         /\ pc' = [pc EXCEPT ![t] = [at |-> "lret", r |-> <<Rle(<<pc[t].a, mem[1][2]>>)>>]]
         /\ UNCHANGED <<mem, wr, nops>>
\* Nothing was there when it looked; that is the moment the load took effect.
TakeNone(t) == /\ pc[t].at = "take" /\ pc' = [pc EXCEPT ![t] = [at |-> "nret"]]
               /\ UNCHANGED <<rwvars, mem, lock, wr, nops>>
LRet(t) == /\ pc[t].at = "lret" /\ LoadRet(t, pend[t].r) /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]] /\ UNCHANGED <<mem, lock, wr, nops>>
NRet(t) == /\ pc[t].at = "nret" /\ pend' = [pend EXCEPT ![t] = Idle] /\ pc' = [pc EXCEPT ![t] = [at |-> "idle"]]
           /\ UNCHANGED <<cur, size, mem, lock, wr, nops>>
Steps(t) == RefuseStep(t) \/ Alloc(t) \/ WLock(t) \/ W1(t) \/ W2(t) \/ URet(t) \/ Peek(t) \/ R1(t) \/ R2(t) \/ TakeNone(t) \/ LRet(t) \/ NRet(t)
Next == \E t \in Threads : Call(t) \/ Steps(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Steps(t))

\* What the algorithm is about to return is what the register gave.
Whole == \A t \in Threads : pc[t].at = "lret" => pc[t].r = pend[t].r
Same == wr = 0 => cur = (IF mem = <<>> THEN <<>> ELSE <<Rle(mem[1])>>)
Finishes == \A t \in Threads : (pc[t].at # "idle") ~> (pc[t].at = "idle")
=============================================================================

-------------------------------- MODULE Lazy --------------------------------
(***************************************************************************)
(* Lazy metrics (C07): a once cell plus an initializer that can be taken   *)
(* once.  The initializer is user code: it starts inside the first force,  *)
(* and returns or panics at a time of its own choosing.  Its value becomes *)
(* visible in a separate internal step after it has returned.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

CONSTANTS Threads

VARIABLES cell,     \* "unset", "running", "set", "poisoned"
          obj,      \* the initialized object, once set
          addr,     \* where it lives: unknown (0) until first seen
          pend

lvars == <<cell, obj, addr, pend>>

Idle == [st |-> "idle"]

\* What a force that panics returns (an object is <<obj>>, nothing is <<>>).
Panicked == <<0, 0>>

LazyInit == cell = "unset" /\ obj = 0 /\ addr = 0 /\ pend = [t \in Threads |-> Idle]

Forces    == {"force", "deref", "deref_mut"}
Objects   == {"get", "get_mut", "any"}               \* reply: nothing or the object
Observers == Objects \cup {"value", "enabled", "snapshot"}

Call(t, op) ==
  /\ pend[t] = Idle /\ op \in Forces \cup Observers
  /\ pend' = [pend EXCEPT ![t] = [st |-> "called", op |-> op]]
  /\ UNCHANGED <<cell, obj, addr>>

Done(t, r) == pend' = [pend EXCEPT ![t] = [st |-> "done", op |-> pend[t].op, ret |-> r]]

\* The initializer starts: only in a force, only if it never started before.
InitStart(t, o) ==
  /\ pend[t].st = "called" /\ pend[t].op \in Forces
  /\ cell = "unset"
  /\ cell' = "running" /\ obj' = o
  /\ pend' = [pend EXCEPT ![t].st = "init"]
  /\ UNCHANGED addr

\* The initializer is about to return or panic.
InitEnd(t, how) ==
  /\ pend[t].st = "init" /\ cell = "running"
  /\ pend' = [pend EXCEPT ![t] = [st |-> "ended", op |-> pend[t].op, how |-> how]]
  /\ UNCHANGED <<cell, obj, addr>>

Publish(t) ==
  /\ pend[t].st = "ended"
  /\ IF pend[t].how = "ok" THEN cell' = "set" /\ Done(t, <<obj>>)
                           ELSE cell' = "poisoned" /\ Done(t, Panicked)
  /\ UNCHANGED <<obj, addr>>

ForceHit(t) ==
  /\ pend[t].st = "called" /\ pend[t].op \in Forces
  /\ \/ cell = "set" /\ Done(t, <<obj>>)
     \/ cell = "poisoned" /\ Done(t, Panicked)
  /\ UNCHANGED <<cell, obj, addr>>

\* Observers never initialize and never wait.
Observe(t) ==
  /\ pend[t].st = "called" /\ pend[t].op \in Observers
  /\ Done(t, IF cell = "set" THEN <<obj>> ELSE <<>>)
  /\ UNCHANGED <<cell, obj, addr>>

Lin(t) == Publish(t) \/ ForceHit(t) \/ Observe(t)

\* r: what came back; a: the address seen (0 if the operation shows none).
Ret(t, r, a) ==
  /\ pend[t].st = "done" /\ r = pend[t].ret
  /\ a # 0 => (addr = 0 \/ addr = a)
  /\ addr' = IF a # 0 THEN a ELSE addr
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<cell, obj>>
=============================================================================

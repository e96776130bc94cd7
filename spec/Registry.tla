------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The registry of dynamic metrics (C01, C02, C03, and the backbone of     *)
(* C17): which metrics are listed, and what a held view guarantees.        *)
(*                                                                         *)
(* Grain: one action per critical section of the registry lock.  An        *)
(* operation is Call, a Lin step (the critical section), and Ret.  A view  *)
(* is the shared lock: it is taken in the Lin step of open and released in *)
(* the Lin step of close.  Registering and unregistering need the lock     *)
(* exclusively, so their Lin steps are disabled while any view is held.    *)
(* Dropping a metric that was never registered changes nothing and is free *)
(* to wait for the lock or not.                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES reg,      \* metric id -> [name, desc], the registered dynamic metrics
          views,    \* view id -> the registry as it was when the view was taken
          pend      \* thread -> Idle or the operation in progress

rvars == <<reg, views, pend>>

Idle == [st |-> "idle"]
EmptyMap == <<>>

Without(f, x) == [y \in (DOMAIN f) \ {x} |-> f[y]]
With(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]

RegInit == /\ reg = EmptyMap
           /\ views = EmptyMap
           /\ pend = [t \in Threads |-> Idle]

NoViews == DOMAIN views = {}

Begin(t, rec) ==
  /\ pend[t] = Idle
  /\ pend' = [pend EXCEPT ![t] = [st |-> "called"] @@ rec]
  /\ UNCHANGED <<reg, views>>

CallRegister(t, id, name, desc) == Begin(t, [op |-> "register", id |-> id, name |-> name, desc |-> desc])
CallDrop(t, id, how)  == Begin(t, [op |-> "drop", id |-> id, how |-> how])
CallOpen(t, v)        == Begin(t, [op |-> "open", v |-> v])
CallClose(t, v, how)  == v \in DOMAIN views /\ Begin(t, [op |-> "close", v |-> v, how |-> how])

Done(t) == pend' = [pend EXCEPT ![t].st = "done"]

LinRegister(t) ==
  /\ pend[t].st = "called" /\ pend[t].op = "register"
  /\ NoViews
  /\ reg' = With(reg, pend[t].id, [name |-> pend[t].name, desc |-> pend[t].desc])
  /\ Done(t) /\ UNCHANGED views

LinDrop(t) ==
  /\ pend[t].st = "called" /\ pend[t].op = "drop"
  /\ pend[t].id \in DOMAIN reg => NoViews
  /\ reg' = Without(reg, pend[t].id)
  /\ Done(t) /\ UNCHANGED views

LinOpen(t) ==
  /\ pend[t].st = "called" /\ pend[t].op = "open"
  /\ views' = With(views, pend[t].v, reg)
  /\ Done(t) /\ UNCHANGED reg

LinClose(t) ==
  /\ pend[t].st = "called" /\ pend[t].op = "close"
  /\ views' = Without(views, pend[t].v)
  /\ Done(t) /\ UNCHANGED reg

Lin(t) == LinRegister(t) \/ LinDrop(t) \/ LinOpen(t) \/ LinClose(t)

\* The outcome an operation must have: a panic raised by user code comes
\* out to the caller, and nothing else does.
Outcome(p) == IF p.op \in {"drop", "close"} THEN p.how ELSE "ok"

Ret(t, outcome) ==
  /\ pend[t].st = "done"
  /\ outcome = Outcome(pend[t])
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<reg, views>>

\* Everything a view shows: each registered metric exactly once, nothing else.
Shows(v, listing) ==
  /\ v \in DOMAIN views
  /\ Len(listing) = Cardinality(DOMAIN views[v])
  /\ \A i \in 1..Len(listing) :
       LET e == listing[i] IN
       /\ e.id \in DOMAIN views[v]
       /\ views[v][e.id] = [name |-> e.name, desc |-> e.desc]
  /\ Cardinality({listing[i].id : i \in 1..Len(listing)}) = Len(listing)

\* The user's destructor of a metric is running inside thread t's drop: the
\* metric has already left the registry.
InDestructor(t, id) ==
  /\ pend[t].st = "done" /\ pend[t].op = "drop" /\ pend[t].id = id
  /\ id \notin DOMAIN reg
  /\ UNCHANGED rvars
=============================================================================

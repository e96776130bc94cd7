---------------------------- MODULE Gen_Registry ----------------------------
(***************************************************************************)
(* Behaviours of Registry for replay: a sequence of steps for controlled   *)
(* threads.  Internal steps run as soon as they are enabled, so a step     *)
(* stays pending exactly when the specification makes it wait.  A new      *)
(* scenario starts with no dynamic metrics.                                *)
(***************************************************************************)
EXTENDS Registry, Json

CONSTANTS Depth, MaxIds, Names, Kinds, Places, PanicPoints

VARIABLES hist, objs, held, nv, nid, out

gvars == <<hist, objs, held, nv, nid, out>>

GInit == RegInit /\ hist = <<>> /\ objs = EmptyMap /\ held = EmptyMap /\ nv = 0 /\ nid = 0 /\ out = FALSE

Rec(r) == hist' = Append(hist, r)
Holds(t) == {v \in DOMAIN held : held[v] = t}
Writers == {t \in Threads : pend[t].st = "called" /\ pend[t].op \in {"register", "drop"}}
Busy(id) == \E t \in Threads : pend[t].st # "idle" /\ pend[t].op \in {"register", "drop"} /\ pend[t].id = id

Internal == \E t \in Threads :
   \/ Lin(t) /\ UNCHANGED gvars
   \/ /\ pend[t].st = "done" /\ Ret(t, Outcome(pend[t]))
      /\ LET p == pend[t] IN
         held' = IF p.op = "open" THEN With(held, p.v, t)
                 ELSE IF p.op = "close" THEN Without(held, p.v) ELSE held
      /\ UNCHANGED <<hist, objs, nv, nid, out>>

Quiescent == ~ENABLED Internal

Descs == {<<>>, <<"">>, <<"d">>}

Build(t) == /\ nid < MaxIds /\ Holds(t) = {} /\ nid' = nid + 1
            /\ \E k \in Kinds : \E p \in Places : \E n \in Names : \E d \in Descs :
                 /\ Rec([t |-> t, op |-> "build", id |-> nid', kind |-> k, place |-> p, name |-> n, desc |-> d])
                 /\ objs' = With(objs, nid', p)
                 /\ IF p = "boxed" THEN CallRegister(t, nid', n, d)
                    ELSE pend[t] = Idle /\ UNCHANGED rvars
            /\ UNCHANGED <<held, nv, out>>
Register(t) == /\ Holds(t) = {}
               /\ \E id \in DOMAIN objs : /\ objs[id] # "boxed" /\ ~Busy(id)
                    /\ \E n \in Names : \E d \in Descs :
                         /\ CallRegister(t, id, n, d)
                         /\ Rec([t |-> t, op |-> "register", id |-> id, name |-> n, desc |-> d])
               /\ UNCHANGED <<objs, held, nv, nid, out>>
Drop(t) == /\ Holds(t) = {}
           /\ \E id \in DOMAIN objs : /\ ~Busy(id)
                /\ CallDrop(t, id, "ok")
                /\ objs' = Without(objs, id)
                /\ Rec([t |-> t, op |-> "drop", id |-> id])
           /\ UNCHANGED <<held, nv, nid, out>>
Open(t) == /\ Cardinality(Holds(t)) < 2
           /\ Holds(t) # {} => Writers = {}
           /\ nv' = nv + 1 /\ CallOpen(t, nv')
           /\ Rec([t |-> t, op |-> "open", v |-> nv'])
           /\ UNCHANGED <<objs, held, nid, out>>
List(t) == /\ pend[t] = Idle
           /\ \E v \in Holds(t) : Rec([t |-> t, op |-> "list", v |-> v])
           /\ UNCHANGED <<reg, views, pend, objs, held, nv, nid, out>>
Close(t) == /\ \E v \in Holds(t) : CallClose(t, v, "ok") /\ Rec([t |-> t, op |-> "close", v |-> v])
            /\ UNCHANGED <<objs, held, nv, nid, out>>
\* A view is opened, user code panics under it, the view is released.
Panic(t) == /\ Holds(t) = {} /\ pend[t] = Idle
            /\ nv' = nv + 1
            /\ \E w \in PanicPoints : Rec([t |-> t, op |-> "panic", where |-> w, v |-> nv'])
            /\ UNCHANGED <<reg, views, pend, objs, held, nid, out>>

GNext == \/ Internal
         \/ /\ Quiescent /\ Len(hist) < Depth
            /\ \E t \in Threads : Build(t) \/ Register(t) \/ Drop(t) \/ Open(t) \/ List(t) \/ Close(t) \/ Panic(t)

Emit == /\ Len(hist) = Depth /\ ~out /\ out' = TRUE /\ Quiescent
        /\ PrintT("@@" \o ToJson([steps |-> hist]))
        /\ UNCHANGED <<reg, views, pend, hist, objs, held, nv, nid>>

GSpec == GInit /\ [][GNext \/ Emit]_<<reg, views, pend, hist, objs, held, nv, nid, out>>
=============================================================================

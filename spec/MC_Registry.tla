----------------------------- MODULE MC_Registry -----------------------------
EXTENDS Registry

CONSTANTS Ids, Names, MaxViews, MaxOps

VARIABLES alive,     \* ids that exist and have not begun to be destroyed
          begun,     \* ids whose registration has returned
          gone,      \* ids whose destruction has returned
          held,      \* view -> thread holding it
          nviews, nops

vars == <<reg, views, pend, alive, begun, gone, held, nviews, nops>>
ghost == <<alive, begun, gone, held, nviews>>

Init == RegInit /\ alive = Ids /\ begun = {} /\ gone = {} /\ held = <<>> /\ nviews = 0 /\ nops = 0

Holds(t) == {v \in DOMAIN held : held[v] = t}
Writing(t) == pend[t].st = "called" /\ pend[t].op \in {"register", "drop"}
Busy(id) == \E t \in Threads : pend[t].st # "idle" /\ pend[t].op \in {"register", "drop"} /\ pend[t].id = id

\* A thread that holds a view must not register or drop (documented).
Env(t) ==
  /\ nops < MaxOps /\ nops' = nops + 1
  /\ \/ /\ Holds(t) = {}
        /\ \E id \in alive : ~Busy(id) /\ \E n \in Names : CallRegister(t, id, n, <<>>)
        /\ UNCHANGED ghost
     \/ /\ Holds(t) = {}
        /\ \E id \in alive : /\ ~Busy(id)
                             /\ \E how \in {"ok", "panic"} : CallDrop(t, id, how)
                             /\ alive' = alive \ {id}
        /\ UNCHANGED <<begun, gone, held, nviews>>
     \/ /\ nviews < MaxViews /\ nviews' = nviews + 1
        /\ Holds(t) = {} \/ \A u \in Threads : ~Writing(u)
        /\ CallOpen(t, nviews')
        /\ UNCHANGED <<alive, begun, gone, held>>

\* Closing a view is not counted: a holder can always do it.
EnvClose(t) ==
  /\ \E v \in Holds(t) : \E how \in {"ok", "panic"} : CallClose(t, v, how)
  /\ UNCHANGED <<alive, begun, gone, held, nviews, nops>>

SysRet(t) ==
  /\ pend[t].st = "done" /\ Ret(t, Outcome(pend[t]))
  /\ LET p == pend[t] IN
     /\ begun' = IF p.op = "register" THEN begun \cup {p.id} ELSE begun
     /\ gone'  = IF p.op = "drop" THEN gone \cup {p.id} ELSE gone
     /\ held'  = IF p.op = "open" THEN With(held, p.v, t)
                 ELSE IF p.op = "close" THEN Without(held, p.v) ELSE held
  /\ UNCHANGED <<alive, nviews, nops>>

SysLin(t) == Lin(t) /\ UNCHANGED <<alive, begun, gone, held, nviews, nops>>

Next == \E t \in Threads : Env(t) \/ EnvClose(t) \/ SysLin(t) \/ SysRet(t)

Fair == \A t \in Threads : WF_vars(EnvClose(t)) /\ SF_vars(SysLin(t)) /\ WF_vars(SysRet(t))
Spec == Init /\ [][Next]_vars /\ Fair

-----------------------------------------------------------------------------
\* C01.  What any view held now shows.
Complete == \A v \in DOMAIN views : \A id \in begun :
              \* returned before the view was taken is implied by: the registry is frozen
              (id \in alive /\ ~Busy(id)) => id \in DOMAIN views[v]
NoGhosts == /\ gone \cap DOMAIN reg = {}
            /\ \A v \in DOMAIN views : gone \cap DOMAIN views[v] = {}
OnlyRegistered == \A id \in DOMAIN reg : id \in begun \/ Busy(id)

\* C02.  The registry does not change while a view is held.
Frozen == \A v \in DOMAIN views : views[v] = reg
FreezeStep == [][(DOMAIN views # {} /\ DOMAIN views \cap DOMAIN views' # {}) => reg' = reg]_vars
NoReturnUnderView == [][\A t \in Threads :
     (pend[t].st = "called" /\ pend[t].op = "register" /\ pend'[t].st = "done") => DOMAIN views = {}]_vars
\* Every waiting operation completes once views are released.
Completes == \A t \in Threads : (pend[t].st = "called") ~> (pend[t].st = "idle")

\* Broken variants, which the properties above must refute.
BadLinRegister(t) ==      \* does not wait for views
  /\ pend[t].st = "called" /\ pend[t].op = "register"
  /\ reg' = With(reg, pend[t].id, [name |-> pend[t].name, desc |-> pend[t].desc])
  /\ Done(t) /\ UNCHANGED <<views, alive, begun, gone, held, nviews, nops>>
BadSpec1 == Init /\ [][Next \/ \E t \in Threads : BadLinRegister(t)]_vars
BadLinDrop(t) ==          \* forgets to unregister when the destructor panics
  /\ pend[t].st = "called" /\ pend[t].op = "drop" /\ pend[t].how = "panic"
  /\ Done(t) /\ UNCHANGED <<reg, views, alive, begun, gone, held, nviews, nops>>
BadSpec2 == Init /\ [][Next \/ \E t \in Threads : BadLinDrop(t)]_vars
BadRet(t) ==              \* a panic under a view leaves the lock held
  /\ pend[t].st = "called" /\ pend[t].op = "close" /\ pend[t].how = "panic"
  /\ Done(t) /\ UNCHANGED <<reg, views, alive, begun, gone, held, nviews, nops>>
BadNext3 == \E t \in Threads : Env(t) \/ EnvClose(t) \/ BadRet(t) \/ SysRet(t)
                                 \/ (SysLin(t) /\ ~(pend[t].op = "close" /\ pend[t].how = "panic"))
BadSpec3 == Init /\ [][BadNext3]_vars /\
            \A t \in Threads : WF_vars(EnvClose(t)) /\ WF_vars(SysRet(t)) /\ SF_vars(SysLin(t)) /\ WF_vars(BadRet(t))
=============================================================================

------------------------------ MODULE MC_Handle ------------------------------
(***************************************************************************)
(* Entries as the code has them: an address and a pointer to the metric;   *)
(* addresses are reused after a drop.  Broken variants: an entry that      *)
(* remembers its first reading, and one that survives its metric.          *)
(***************************************************************************)
EXTENDS Handle, FiniteSets
CONSTANTS MaxOps, Variant
VARIABLES addr,     \* id -> address, for live metrics
          ent,      \* address -> [id, cached]
          n
vars == <<live, addr, ent, n>>
Addrs == {"p", "q"}
Vals == {"0", "1"}
Init == HInit /\ addr = <<>> /\ ent = <<>> /\ n = 0
Free == Addrs \ {addr[i] : i \in DOMAIN addr}
Make(i) == \E a \in Free, ty \in {"counter", "lazyc"} :
             /\ HAdd(i, ty, IF ty = "counter" THEN "0" ELSE "")
             /\ addr' = (i :> a) @@ addr
             /\ ent' = (IF Variant = "stale" /\ a \in DOMAIN ent THEN ent
                        ELSE (a :> [id |-> i, cached |-> Reading(live'[i])]) @@ ent)
Write(i) == /\ \E v \in Vals : HSet(i, v)
            /\ UNCHANGED <<addr, ent>>
Kill(i) == /\ HDrop(i)
           /\ addr' = [j \in DOMAIN addr \ {i} |-> addr[j]]
           /\ ent' = IF Variant = "stale" THEN ent ELSE [a \in DOMAIN ent \ {addr[i]} |-> ent[a]]
Next == n < MaxOps /\ n' = n + 1 /\ \/ n + 1 \notin DOMAIN live /\ Make(n + 1)
                                    \/ \E i \in DOMAIN live : Write(i) \/ Kill(i)
Spec == Init /\ [][Next]_vars
Transparent == \A i \in DOMAIN live : addr[i] \in DOMAIN ent /\
     LET e == ent[addr[i]] IN
     /\ e.id = i
     /\ (IF Variant = "cached" THEN e.cached ELSE Reading(live[e.id])) = Reading(live[i])
OneEach == Cardinality(DOMAIN ent) = Cardinality(DOMAIN live)
=============================================================================

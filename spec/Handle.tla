------------------------------- MODULE Handle -------------------------------
(***************************************************************************)
(* Entries as handles (C10).  Each live metric has a type and a state that *)
(* determine its reading: enabled or not, its value, the object behind it. *)
(* Reading directly or through its entry gives the same, at every moment;  *)
(* an entry is its own metric's and nobody else's.                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES live      \* id -> [type, st]

HInit == live = <<>>

\* st of a cell is its value as text; of a lazy cell "" until it is used; a
\* probe is user code that reports whatever its state says.
Reading(x) ==
  CASE x.type = "counter" -> [enabled |-> TRUE, value |-> "counter:" \o x.st, any |-> "self"]
    [] x.type = "gauge"   -> [enabled |-> TRUE, value |-> "gauge:" \o x.st, any |-> "self"]
    [] x.type \in {"lazyc", "lazyg"} ->
         IF x.st = "" THEN [enabled |-> FALSE, value |-> "none", any |-> "none"]
         ELSE [enabled |-> TRUE, value |-> (IF x.type = "lazyc" THEN "counter:" ELSE "gauge:") \o x.st, any |-> "self"]
    [] x.type \in {"ahist", "rwhist"} -> [enabled |-> TRUE, value |-> "other:self", any |-> "self"]
    [] x.type = "probe" -> [enabled |-> x.st[1], value |-> x.st[2], any |-> x.st[3]]

HAdd(i, type, st) == i \notin DOMAIN live /\ live' = (i :> [type |-> type, st |-> st]) @@ live
HSet(i, st) == i \in DOMAIN live /\ live' = [live EXCEPT ![i].st = st]
HDrop(i) == i \in DOMAIN live /\ live' = [j \in DOMAIN live \ {i} |-> live[j]]
HRead(i, r) == i \in DOMAIN live /\ r = Reading(live[i]) /\ UNCHANGED live
\* Of all the metrics asked about, the entry is exactly one: its own.
HIs(i, yes) == i \in DOMAIN live /\ yes = <<i>> /\ UNCHANGED live
=============================================================================

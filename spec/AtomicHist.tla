----------------------------- MODULE AtomicHist -----------------------------
(***************************************************************************)
(* Atomic histograms (C08), as seen from outside.  Buckets are counted     *)
(* separately and a load is not atomic across them, so what a load may     *)
(* show is specified per bucket, by what had happened when it started and  *)
(* what had been begun when it ended:                                      *)
(*   - at least every recording that had returned, and at least what an    *)
(*     earlier finished load had shown,                                    *)
(*   - at most the recordings that had started.                            *)
(* MC_AtomicHist shows that the algorithm (lazy shared allocation, one     *)
(* atomic add per recording, bucket by bucket loads) stays within this.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads

VARIABLES started,   \* bucket -> recordings begun (only buckets that have any)
          finished,  \* bucket -> recordings that returned
          shown,     \* bucket -> most that a finished load has shown
          some,      \* TRUE once every later load must show a histogram
          pend

ahvars == <<started, finished, shown, some, pend>>

Idle == [st |-> "idle"]
At(f, b) == IF b \in DOMAIN f THEN f[b] ELSE 0
Plus(f, b, n) == (b :> (At(f, b) + n)) @@ f
Join(f, h) == [b \in DOMAIN f \cup DOMAIN h |-> IF At(f, b) > At(h, b) THEN At(f, b) ELSE At(h, b)]

AHInit == started = <<>> /\ finished = <<>> /\ shown = <<>> /\ some = FALSE /\ pend = [t \in Threads |-> Idle]

\* n recordings of one value: bs is <<its bucket>>, or <<>> if it is out of range.
IncCall(t, bs, n) ==
  /\ pend[t] = Idle
  /\ pend' = [pend EXCEPT ![t] = [st |-> "inc", bs |-> bs, n |-> n]]
  /\ started' = IF bs = <<>> THEN started ELSE Plus(started, bs[1], n)
  /\ UNCHANGED <<finished, shown, some>>

IncRet(t, ok) ==
  /\ pend[t].st = "inc"
  /\ ok = (pend[t].bs # <<>>)
  /\ finished' = IF ok THEN Plus(finished, pend[t].bs[1], pend[t].n) ELSE finished
  /\ some' = (some \/ ok)
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<started, shown>>

\* Call and return in one, while nothing else is in progress.
IncAlone(bs, ok) ==
  /\ \A t \in Threads : pend[t] = Idle
  /\ ok = (bs # <<>>)
  /\ started' = IF ok THEN Plus(started, bs[1], 1) ELSE started
  /\ finished' = IF ok THEN Plus(finished, bs[1], 1) ELSE finished
  /\ some' = (some \/ ok)
  /\ UNCHANGED <<shown, pend>>

LoadCall(t) ==
  /\ pend[t] = Idle
  /\ pend' = [pend EXCEPT ![t] = [st |-> "load", floor |-> Join(finished, shown), some |-> some]]
  /\ UNCHANGED <<started, finished, shown, some>>

\* c: bucket -> count, for the buckets that are not zero.
Allowed(c, fl) ==
  /\ \A b \in DOMAIN c : c[b] > 0 /\ c[b] <= At(started, b)
  /\ \A b \in DOMAIN fl : At(c, b) >= fl[b]

\* r is <<>> (nothing) or <<c>>.
LoadAllowed(t, r) ==
  IF r = <<>> THEN ~pend[t].some
  ELSE started # <<>> /\ Allowed(r[1], pend[t].floor)     \* something in range has begun

LoadRet(t, r) ==
  /\ pend[t].st = "load"
  /\ LoadAllowed(t, r)
  /\ shown' = IF r = <<>> THEN shown ELSE Join(shown, r[1])
  /\ some' = (some \/ r # <<>>)
  /\ pend' = [pend EXCEPT ![t] = Idle]
  /\ UNCHANGED <<started, finished>>
=============================================================================

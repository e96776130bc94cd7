------------------------------- MODULE Context -------------------------------
(***************************************************************************)
(* Typed context (C11).  A request wants one type in one manner ("value"   *)
(* or "ref").  Offers are made one after the other: first those attached   *)
(* by the library or the builder, then the metric's own, all of them       *)
(* unless one was taken already.  The first offer                          *)
(* of exactly that type and manner is taken, later ones are not even       *)
(* computed, others are ignored.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES want,     \* [man |-> ..., ty |-> ...]
          got,      \* <<>> or <<id of the offer taken>>
          attached, \* what is attached: sequence of offers
          own,      \* what the metric itself has to offer: sequence of offers
          made      \* all offers made to this request so far, in order

cxvars == <<want, got, attached, own, made>>

Matches(o) == o.man = want.man /\ o.ty = want.ty
Accepts(man, ty) == got = <<>> /\ man = want.man /\ ty = want.ty

\* Attaching again for a type replaces what was attached (and is then last).
RECURSIVE Without(_, _, _)
Without(s, man, ty) == IF s = <<>> THEN <<>>
                       ELSE IF s[1].man = man /\ s[1].ty = ty THEN Without(Tail(s), man, ty)
                       ELSE <<s[1]>> \o Without(Tail(s), man, ty)
Attach(o) == attached' = Append(Without(attached, o.man, o.ty), o)

RECURSIVE FirstOf(_, _)
FirstOf(s, w) == IF s = <<>> THEN <<>>
                 ELSE IF s[1].man = w.man /\ s[1].ty = w.ty THEN <<s[1].id>> ELSE FirstOf(Tail(s), w)

CxInit == own = <<>> /\ want = [man |-> "-", ty |-> "-"] /\ got = <<>> /\ attached = <<>> /\ made = <<>>

\* The request is made; the attached offers come first.
Request(man, ty) ==
  /\ want' = [man |-> man, ty |-> ty]
  /\ got' = FirstOf(attached, want')
  /\ made' = attached
  /\ UNCHANGED <<attached, own>>

\* An own offer; used says whether it was taken (a computed one was computed).
Offer(o, used) ==
  /\ used = Accepts(o.man, o.ty)
  /\ got' = IF used THEN <<o.id>> ELSE got
  /\ Len(made) < Len(attached) + Len(own) /\ o = own[Len(made) - Len(attached) + 1]
  /\ made' = Append(made, o)
  /\ UNCHANGED <<want, attached, own>>

Ask(man, ty, yes) == yes = Accepts(man, ty) /\ UNCHANGED cxvars

\* Objects of these types do not say which one they are.
Blank == {"Z", "none"}
Told == IF want.ty \in Blank /\ got # <<>> THEN <<0>> ELSE got
\* Whatever was not offered would not have been taken.
Result(r) == /\ r = Told
             /\ got # <<>> \/ Len(made) = Len(attached) + Len(own)
             /\ UNCHANGED cxvars
=============================================================================

------------------------------ MODULE MC_Codec ------------------------------
(***************************************************************************)
(* How the two versions are told apart.  An encoding is the fields of a    *)
(* snapshot in order, with their names ("json") or without ("msgpack").    *)
(* Decoding tries the versions in the given order; a version matches if    *)
(* the fields it needs are there: by position, with nothing left over, if  *)
(* there are no names; by name, ignoring others, if there are.  A field    *)
(* with a default may be missing only if it has a name.                    *)
(***************************************************************************)
EXTENDS Codec, FiniteSets, TLC
CONSTANTS Order, Values, MaxLen
VARIABLES wire, ok

Fields(v) == IF v = 1 THEN <<"time", "meta", "reads">> ELSE <<"time", "dur", "meta", "reads">>
TypeOf(f) == IF f = "time" THEN "T" ELSE IF f = "dur" THEN "T" ELSE IF f = "meta" THEN "M" ELSE "R"
Snaps == {[ver |-> 1, time |-> t, dur |-> "-", meta |-> x, reads |-> y] : t \in Values, x \in Values, y \in Values}
    \cup {[ver |-> 2, time |-> t, dur |-> d, meta |-> x, reads |-> y] : t \in Values, d \in Values, x \in Values, y \in Values}
Enc(s) == [i \in 1..Len(Fields(s.ver)) |-> [f |-> IF fmt = "json" THEN Fields(s.ver)[i] ELSE "",
                                           t |-> TypeOf(Fields(s.ver)[i]), v |-> s[Fields(s.ver)[i]]]]
Fits(e, v) ==
  IF fmt = "json"
  THEN \A i \in 1..Len(Fields(v)) : Fields(v)[i] = "meta" \/ \E j \in 1..Len(e) : e[j].f = Fields(v)[i]
  ELSE Len(e) = Len(Fields(v)) /\ \A i \in 1..Len(e) : e[i].t = TypeOf(Fields(v)[i])
Get(e, v, f) ==
  IF ~\E i \in 1..Len(Fields(v)) : Fields(v)[i] = f THEN "-"
  ELSE IF fmt = "json" THEN e[CHOOSE j \in 1..Len(e) : e[j].f = f].v
  ELSE e[CHOOSE i \in 1..Len(Fields(v)) : Fields(v)[i] = f].v
As(e, v) == [ver |-> v, time |-> Get(e, v, "time"), dur |-> Get(e, v, "dur"), meta |-> Get(e, v, "meta"), reads |-> Get(e, v, "reads")]
Dec(e) == IF Fits(e, Order[1]) THEN As(e, Order[1]) ELSE As(e, Order[2])

MInit == CInit /\ wire = <<>> /\ ok = TRUE
MNew == fmt = "" /\ (\E f \in {"json", "msgpack"} : New(f)) /\ UNCHANGED <<wire, ok>>
MEnc == fmt # "" /\ Len(stream) < MaxLen /\ \E s \in Snaps :
          Encode(s, <<1>>, 1) /\ wire' = Append(wire, Enc(s)) /\ UNCHANGED ok
MDec == /\ pos < Len(wire)
        /\ ok' = (ok /\ Dec(wire[pos + 1]) = stream[pos + 1])
        /\ pos' = pos + 1 /\ UNCHANGED <<fmt, stream, at, wire>>
MNext == MNew \/ MEnc \/ MDec
MSpec == MInit /\ [][MNext]_<<cvars, wire, ok>>
Inv == ok
V2First == <<2, 1>>
V1First == <<1, 2>>
=============================================================================

------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* Building dynamic metrics and reading back what their entries say (C12), *)
(* and formatting entries (C13).  Several builders are used side by side.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Slots

VARIABLES m        \* slot -> [st, name, desc, meta, ctx, fmt]

None == [st |-> "none"]
BInit == m = [s \in Slots |-> None]

\* Maps with string keys; the last value given counts.
Put(f, k, v) == (k :> v) @@ f

Begin(s, name) ==
  /\ m[s].st = "none"
  /\ m' = [m EXCEPT ![s] = [st |-> "building", name |-> name, desc |-> <<>>, meta |-> <<>>, ctx |-> <<>>, fmt |-> ""]]
Desc(s, d)    == m[s].st = "building" /\ m' = [m EXCEPT ![s].desc = <<d>>]
Meta(s, k, v) == m[s].st = "building" /\ m' = [m EXCEPT ![s].meta = Put(@, k, v)]
Ctx(s, ty, i) == m[s].st = "building" /\ m' = [m EXCEPT ![s].ctx = Put(@, ty, i)]
Fmt(s, f)     == m[s].st = "building" /\ m' = [m EXCEPT ![s].fmt = f]
Build(s)      == m[s].st = "building" /\ m' = [m EXCEPT ![s].st = "live"]
\* A pinned metric is registered again: a new name and description only.
Again(s, name, desc) == m[s].st = "live" /\ m' = [m EXCEPT ![s].name = name, ![s].desc = desc]
Drop(s)       == m[s].st = "live" /\ m' = [m EXCEPT ![s] = None]
\* A static metric is there from the start.
Static(s, r)  == m[s].st = "none" /\ m' = [m EXCEPT ![s] = r]

(***************************************************************************)
(* Formatting.  The custom formatters of the scenarios return their name,  *)
(* the format and the entry's name.                                        *)
(***************************************************************************)
RECURSIVE EscapeFrom(_, _)
EscapeFrom(v, i) ==
  IF i > Len(v) THEN ""
  ELSE LET c == SubSeq(v, i, i)
       IN (CASE c = "\\" -> "\\\\" [] c = "\"" -> "\\\"" [] c = "\n" -> "\\n" [] OTHER -> c) \o EscapeFrom(v, i + 1)
Escape(v) == EscapeFrom(v, 1)

IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Rest(p, s) == SubSeq(s, Len(p) + 1, Len(s))

\* text is the pairs of meta with these keys, each exactly once, in some order.
RECURSIVE Pairs(_, _, _)
Pairs(text, meta, keys) ==
  \E k \in keys :
    LET p == k \o "=\"" \o Escape(meta[k]) \o "\""
    IN IF keys = {k} THEN text = p \o "}"
       ELSE /\ IsPrefix(p \o ", ", text)
            /\ Pairs(Rest(p \o ", ", text), meta, keys \ {k})

Default(r, format, text) ==
  IF format = "prometheus" /\ DOMAIN r.meta # {}
  THEN /\ IsPrefix(r.name \o "{", text)
       /\ Pairs(Rest(r.name \o "{", text), r.meta, DOMAIN r.meta)
  ELSE text = r.name

Formatted(r, format, text) ==
  IF r.fmt = "" THEN Default(r, format, text)
  ELSE text = r.fmt \o ":" \o format \o ":" \o r.name

\* What the entry of a live metric says: seen is [name, desc, meta, ctx],
\* where meta is the sequence of pairs found by iterating and ctx has, for
\* each context type asked for, <<>> or <<what was found>>.
Entry(s, seen) ==
  /\ m[s].st = "live"
  /\ seen.name = m[s].name
  /\ seen.desc = m[s].desc
  /\ Len(seen.meta) = Cardinality(DOMAIN m[s].meta)
  /\ {seen.meta[i][1] : i \in 1..Len(seen.meta)} = DOMAIN m[s].meta
  /\ \A i \in 1..Len(seen.meta) : seen.meta[i][2] = m[s].meta[seen.meta[i][1]]
  /\ \A ty \in DOMAIN seen.ctx : seen.ctx[ty] = (IF ty \in DOMAIN m[s].ctx THEN <<m[s].ctx[ty]>> ELSE <<>>)
=============================================================================

----------------------------- MODULE MC_Builder -----------------------------
(***************************************************************************)
(* Builders do not disturb each other, and the default Prometheus format   *)
(* can be parsed back: a parser that knows only the escapes recovers the   *)
(* name and exactly the pairs, from every order of the pairs.              *)
(***************************************************************************)
EXTENDS Builder, SequencesExt
CONSTANTS MaxOps
VARIABLES n, given
vars == <<m, n, given>>
Strs == {"", "a", "\"", "\\", "\n", "\", b=\"", "\\n"}
Keys == {"k", "b"}
Init == BInit /\ n = 0 /\ given = [s \in Slots |-> <<>>]
Give(s, x) == given' = [given EXCEPT ![s] = Append(@, x)]
Step(s) ==
  \/ Begin(s, "n") /\ given' = [given EXCEPT ![s] = <<>>]
  \/ \E k \in Keys, v \in Strs : Meta(s, k, v) /\ Give(s, <<k, v>>)
  \/ Build(s) /\ UNCHANGED given
  \/ Drop(s) /\ given' = [given EXCEPT ![s] = <<>>]
Next == n < MaxOps /\ n' = n + 1 /\ \E s \in Slots : Step(s)
Spec == Init /\ [][Next]_vars

\* Declaratively: each key has the last value given.
LastGiven == \A s \in Slots : m[s].st # "none" =>
   /\ DOMAIN m[s].meta = {given[s][i][1] : i \in 1..Len(given[s])}
   /\ \A i \in 1..Len(given[s]) :
        (\A j \in (i + 1)..Len(given[s]) : given[s][j][1] # given[s][i][1]) => m[s].meta[given[s][i][1]] = given[s][i][2]

Render(r, order) ==
  r.name \o "{" \o
  FoldLeft(LAMBDA acc, k : (IF acc = "" THEN "" ELSE acc \o ", ") \o k \o "=\"" \o Escape(r.meta[k]) \o "\"", "", order) \o "}"
Orders(S) == {o \in [1..Cardinality(S) -> S] : {o[i] : i \in 1..Cardinality(S)} = S}

\* The parser: reads a quoted value, returns <<value, rest>>.
RECURSIVE Unquote(_, _)
Unquote(s, acc) ==
  LET c == SubSeq(s, 1, 1)
  IN IF c = "\"" THEN <<acc, SubSeq(s, 2, Len(s))>>
     ELSE IF c = "\\" THEN LET e == SubSeq(s, 2, 2)
                           IN Unquote(SubSeq(s, 3, Len(s)), acc \o (IF e = "n" THEN "\n" ELSE e))
     ELSE Unquote(SubSeq(s, 2, Len(s)), acc \o c)
\* keys are one letter here
RECURSIVE ParsePairs(_)
ParsePairs(s) ==
  LET k == SubSeq(s, 1, 1)
      u == Unquote(SubSeq(s, 4, Len(s)), "")
  IN  {<<k, u[1]>>} \cup (IF u[2] = "}" THEN {} ELSE ParsePairs(SubSeq(u[2], 3, Len(u[2]))))
ParseBack == \A s \in Slots : (m[s].st = "live" /\ DOMAIN m[s].meta # {}) =>
   \A o \in Orders(DOMAIN m[s].meta) :
      LET text == Render(m[s], o)
      IN /\ Formatted(m[s], "prometheus", text)
         /\ ParsePairs(SubSeq(text, 3, Len(text))) = {<<k, m[s].meta[k]>> : k \in DOMAIN m[s].meta}
=============================================================================

----------------------------- MODULE MC_Declare -----------------------------
(***************************************************************************)
(* The parser accepts exactly the sentences of the grammar, written down   *)
(* declaratively, and means what they say; order does not matter.          *)
(***************************************************************************)
EXTENDS Declare
CONSTANTS MaxLen
VARIABLES toks, p
vars == <<decls, toks, p>>
T(t, s) == [t |-> t, s |-> s]
Alphabet == {T("id", "name"), T("id", "metadata"), T("id", "other"), T("eq", ""), T("comma", ""), T("open", ""), T("close", ""), T("lit", "v"), T("kw", ""), T("path", "ok")}
Init == DInit /\ toks = <<>> /\ p = Start
Next == /\ Len(toks) < MaxLen /\ p.ph # "bad" /\ UNCHANGED decls
        /\ \E t \in Alphabet : toks' = Append(toks, t) /\ p' = Consume(p, t)
Spec == Init /\ [][Next]_vars

\* The grammar, by lengths.
RECURSIVE Join(_)
Join(ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<T("comma", "")>> \o Join(Tail(ss))
Seqs(S, n) == UNION {[1..k -> S] : k \in 1..n}
Entry == {<<k, T("eq", ""), T("lit", "v")>> : k \in {T("id", "name"), T("id", "metadata"), T("id", "other"), T("lit", "v")}}
Distinct(ss) == \A i, j \in 1..Len(ss) : i # j => ss[i][1].s # ss[j][1].s
Maps == {<<T("open", ""), T("close", "")>>}
        \cup {<<T("open", "")>> \o Join(ss) \o <<T("close", "")>> : ss \in {x \in Seqs(Entry, 2) : Distinct(x)}}
        \cup {<<T("open", "")>> \o Join(ss) \o <<T("comma", ""), T("close", "")>> : ss \in {x \in Seqs(Entry, 2) : Distinct(x)}}
Arg == {<<T("id", "name"), T("eq", ""), T("lit", "v")>>, <<T("kw", ""), T("eq", ""), T("path", "ok")>>}
       \cup {<<T("id", "metadata"), T("eq", "")>> \o m : m \in Maps}
Sentences == {<<>>} \cup {Join(ss) : ss \in {x \in Seqs(Arg, 3) : \A i, j \in 1..Len(x) : i # j => x[i][1] # x[j][1]}}
\* (evaluated once)
ASSUME TLCSet(7, Sentences)

Grammar == (p.ph \in {"start", "sep"}) <=> (toks \in TLCGet(7))
Fold == p = Parse(toks)
Says == p.ph \in {"start", "sep"} =>
  LET me == Meaning(p, "IDENT")
      top == {i \in 1..Len(toks) : toks[i].t = "id" /\ (i = 1 \/ (toks[i-1].t = "comma")) /\
                Cardinality({j \in 1..i : toks[j].t = "open"}) = Cardinality({j \in 1..i : toks[j].t = "close"})}
      inside == {i \in 1..(Len(toks) - 1) : toks[i].t \in {"id", "lit"} /\ toks[i+1].t = "eq" /\
                Cardinality({j \in 1..i : toks[j].t = "open"}) # Cardinality({j \in 1..i : toks[j].t = "close"})}
  IN /\ (me.name = "IDENT") <=> ~\E i \in top : toks[i].s = "name"
     /\ DOMAIN me.meta = {toks[i].s : i \in inside}
     /\ Cardinality(DOMAIN me.meta) = Cardinality(inside)
=============================================================================

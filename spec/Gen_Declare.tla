----------------------------- MODULE Gen_Declare -----------------------------
(***************************************************************************)
(* Argument lists: walks of the parser, with up to Budget edits (a token   *)
(* too many, a token missing, a token replaced) and repetitions.           *)
(***************************************************************************)
EXTENDS Declare, Json
CONSTANTS MaxArgs, MaxKeys, Edits, Ats, Lits, Keys
VARIABLES toks, p, plan, want, n, nk, steps, out
gv == <<decls, toks, p, plan, want, n, nk, steps, out>>
T(t, s) == [t |-> t, s |-> s]
Toks == {T("id", a) : a \in Args \cup {"other"}} \cup {T("kw", ""), T("eq", ""), T("comma", ""), T("open", ""), T("close", "")}
        \cup {T("lit", v) : v \in Lits} \cup {T("sexpr", v) : v \in Lits}
        \cup {T("fmt", "fa"), T("fmt", "fb"), T("path", "ok"), T("path", "bad")} \cup {T("id", k) : k \in Keys} \cup {T("lit", k) : k \in Keys}
Loose == {t \in Toks : t.t \notin {"open", "close"}}
GInit == /\ DInit /\ toks = <<>> /\ p = Start /\ n = 0 /\ nk = 0 /\ steps = 0 /\ out = FALSE
         /\ want \in 0..MaxArgs
         /\ plan \in {[edit |-> e, at |-> a] : e \in Edits, a \in Ats}
Done == p.ph \in {"start", "sep"} /\ n = want
Count(q) == /\ n' = n + (IF q.ph = "sep" /\ p.ph # "sep" THEN 1 ELSE 0)
            /\ nk' = nk + (IF q.ph = "keq" THEN 1 ELSE 0)
Fits(t) == /\ (p.ph = "key" /\ t.t # "close") => nk < MaxKeys
           /\ (p.ph = "ksep" /\ t.t = "comma") => nk <= MaxKeys
           /\ p.ph \in {"key", "keq", "kval", "ksep"} => (t.t = "id" => t.s \in Keys \cup {"name"})
Good(t) == Fits(t) /\ LET q == Consume(p, t) IN q.ph # "bad" /\ p' = q /\ Count(q)
Again == {t \in Loose : t.t \in {"id", "kw"} /\ Consume([Start EXCEPT !.ph = "arg"], t).ph # "bad"}
Due(e) == plan.edit = e /\ steps >= plan.at
Other == {T("eq", ""), T("comma", ""), T("lit", CHOOSE v \in Lits : TRUE), T("id", "other"), T("id", "name"), T("kw", ""), T("fmt", "fa"), T("path", "ok"), T("path", "bad")}
Edit ==
  \/ Due("extra") /\ (\E t \in Loose : toks' = Append(toks, t)) /\ UNCHANGED <<p, n, nk>>
  \/ Due("missing") /\ (\E t \in Loose : Good(t)) /\ UNCHANGED toks
  \/ Due("replaced") /\ \E t \in Loose, u \in Other : t.t # u.t /\ Good(t) /\ toks' = Append(toks, u)
  \/ Due("unknown") /\ p.ph = "arg" /\ \E t \in Loose : Good(t) /\ toks' = Append(toks, T("id", "other"))
  \/ Due("again") /\ p.ph = "arg" /\ \E t \in Again :
       /\ LET a == IF t.t = "kw" THEN "crate" ELSE t.s IN Has(p, a) /\ p' = [p EXCEPT !.ph = "eq", !.arg = a]
       /\ toks' = Append(toks, t) /\ UNCHANGED <<n, nk>>
  \/ Due("keyagain") /\ p.ph = "key" /\ \E k \in DOMAIN p.meta, ty \in {"id", "lit"} :
       /\ ty = "id" => k \in Keys
       /\ toks' = Append(toks, T(ty, k)) /\ p' = [p EXCEPT !.ph = "keq", !.key = k] /\ UNCHANGED <<n, nk>>
GNext == /\ ~Done /\ Len(toks) < 40 /\ steps' = steps + 1 /\ UNCHANGED <<decls, want, out>>
         /\ IF ENABLED Edit THEN Edit /\ plan' = [plan EXCEPT !.edit = "none"]
            ELSE UNCHANGED plan /\ \E t \in Toks : Good(t) /\ toks' = Append(toks, t)
Tail1 == /\ Done /\ ~out /\ plan.edit = "tail" /\ plan' = [plan EXCEPT !.edit = "none"]
         /\ (\E t \in Loose : toks' = Append(toks, t)) /\ UNCHANGED <<decls, p, want, n, nk, steps, out>>
Emit == Done /\ ~out /\ plan.edit # "tail" /\ out' = TRUE /\ PrintT("@@" \o ToJson([toks |-> toks])) /\ UNCHANGED <<decls, toks, p, plan, want, n, nk, steps>>
GSpec == GInit /\ [][GNext \/ Tail1 \/ Emit]_gv
=============================================================================

------------------------------- MODULE Declare -------------------------------
(***************************************************************************)
(* Declaring static metrics with the attribute (C15).  The arguments of    *)
(* the attribute are a sequence of tokens [t, s]:                          *)
(*   "id"    an identifier s            "kw"   the keyword crate           *)
(*   "eq" "comma" "open" "close"        = , { }                            *)
(*   "lit"   a string literal with value s                                 *)
(*   "sexpr" another constant expression with the string value s           *)
(*   "fmt"   an expression that is the formatting function s               *)
(*   "path"  a path; s says whether it leads to the metriken crate         *)
(* Parse is what the attribute makes of them, one token at a time.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS LastWins          \* FALSE; TRUE is a broken variant

VARIABLES decls             \* id -> [res, ident, item, tagged, probed]

Start == [ph |-> "start", arg |-> "", key |-> "",
          name |-> <<>>, description |-> <<>>, formatter |-> <<>>, krate |-> <<>>, metadata |-> <<>>, meta |-> <<>>]
Bad == [Start EXCEPT !.ph = "bad"]

Args == {"name", "description", "formatter", "metadata"}     \* and the keyword crate
Has(p, a) == CASE a = "name" -> p.name # <<>> [] a = "description" -> p.description # <<>>
               [] a = "formatter" -> p.formatter # <<>> [] a = "metadata" -> p.metadata # <<>>
               [] a = "crate" -> p.krate # <<>>
Twice(p, a) == Has(p, a) /\ ~LastWins
Put(f, k, v) == (k :> v) @@ f

Value(p, tok) ==
  CASE p.arg = "metadata" -> IF tok.t = "open" THEN [p EXCEPT !.ph = "key", !.metadata = <<"given">>, !.meta = <<>>] ELSE Bad
    [] p.arg = "name" -> IF tok.t \in {"lit", "sexpr"} THEN [p EXCEPT !.ph = "sep", !.name = <<tok.s>>] ELSE Bad
    [] p.arg = "description" -> IF tok.t \in {"lit", "sexpr"} THEN [p EXCEPT !.ph = "sep", !.description = <<tok.s>>] ELSE Bad
    [] p.arg = "formatter" -> IF tok.t = "fmt" THEN [p EXCEPT !.ph = "sep", !.formatter = <<tok.s>>] ELSE Bad
    [] p.arg = "crate" -> IF tok.t = "path" /\ tok.s = "ok" THEN [p EXCEPT !.ph = "sep", !.krate = <<tok.s>>] ELSE Bad

\* One token.
Consume(p, tok) ==
  CASE p.ph \in {"start", "arg"} ->
         LET a == IF tok.t = "kw" THEN "crate" ELSE IF tok.t = "id" /\ tok.s \in Args THEN tok.s ELSE ""
         IN IF a = "" \/ Twice(p, a) THEN Bad ELSE [p EXCEPT !.ph = "eq", !.arg = a]
    [] p.ph = "eq"   -> IF tok.t = "eq" THEN [p EXCEPT !.ph = "val"] ELSE Bad
    [] p.ph = "val"  -> Value(p, tok)
    [] p.ph = "sep"  -> IF tok.t = "comma" THEN [p EXCEPT !.ph = "arg"] ELSE Bad
    [] p.ph = "key"  -> IF tok.t = "close" THEN [p EXCEPT !.ph = "sep"]
                        ELSE IF tok.t \in {"id", "lit"} /\ (LastWins \/ tok.s \notin DOMAIN p.meta)
                             THEN [p EXCEPT !.ph = "keq", !.key = tok.s] ELSE Bad
    [] p.ph = "keq"  -> IF tok.t = "eq" THEN [p EXCEPT !.ph = "kval"] ELSE Bad
    [] p.ph = "kval" -> IF tok.t \in {"lit", "sexpr"} THEN [p EXCEPT !.ph = "ksep", !.meta = Put(@, p.key, tok.s)] ELSE Bad
    [] p.ph = "ksep" -> IF tok.t = "comma" THEN [p EXCEPT !.ph = "key"]
                        ELSE IF tok.t = "close" THEN [p EXCEPT !.ph = "sep"] ELSE Bad
    [] p.ph = "bad"  -> Bad

RECURSIVE ParseFrom(_, _, _)
ParseFrom(p, toks, i) == IF i > Len(toks) THEN p ELSE ParseFrom(Consume(p, toks[i]), toks, i + 1)
Parse(toks) == ParseFrom(Start, toks, 1)

\* A trailing comma after the last argument may or may not be tolerated.
Accepts(p) == p.ph \in {"start", "sep", "arg"}
Rejects(p) == p.ph \notin {"start", "sep"}

\* What a well-formed declaration stands for.
Meaning(p, ident) ==
  [name |-> IF p.name = <<>> THEN ident ELSE p.name[1], desc |-> p.description, meta |-> p.meta,
   fmt |-> IF p.formatter = <<>> THEN "" ELSE p.formatter[1]]

DInit == decls = <<>>

\* item: what the attribute is put on.  "static" is a static of a metric type,
\* "absent" one that is configured out; anything else cannot be a metric.
Decl(d, ok) ==
  LET p == Parse(d.toks)
      can == d.item \in {"static", "absent"}
  IN /\ d.id \notin DOMAIN decls
     /\ IF ok THEN Accepts(p) /\ can ELSE Rejects(p) \/ ~can
     /\ decls' = IF ok /\ d.item = "static"
                 THEN (d.id :> [m |-> Meaning(p, d.ident), tagged |-> d.tagged, probed |-> d.probed]) @@ decls ELSE decls

\* The listing of the static metrics: each declaration exactly once.  An entry
\* says which declaration its metric identifies itself as (tag, if that type
\* can) and which of the statics it is (is, of those that can be asked).
Listing(es) ==
  /\ Len(es) = Cardinality(DOMAIN decls)
  /\ {es[i].id : i \in 1..Len(es)} = DOMAIN decls
  /\ \A i \in 1..Len(es) :
       LET e == es[i]
           d == decls[e.id]
       IN /\ d.tagged => e.tag = <<e.id>>
          /\ d.probed => e.is = <<e.id>>
          /\ ~d.probed => e.is = <<>>
          /\ e.name = d.m.name
          /\ e.desc = d.m.desc
          /\ Len(e.meta) = Cardinality(DOMAIN d.m.meta)
          /\ \A k \in 1..Len(e.meta) : e.meta[k][1] \in DOMAIN d.m.meta /\ e.meta[k][2] = d.m.meta[e.meta[k][1]]
          /\ Cardinality({e.meta[k][1] : k \in 1..Len(e.meta)}) = Len(e.meta)
          /\ e.text = (IF d.m.fmt = "" THEN d.m.name ELSE d.m.fmt)
=============================================================================

------------------------------ MODULE MC_Table ------------------------------
(***************************************************************************)
(* The writer's algorithm - columns in the order of the schema, one value  *)
(* or null appended to each per snapshot, flushed in groups - against      *)
(* Table.  Broken variants: "lost" drops a group that is not full,         *)
(* "shift" does not fill gaps with null, "late" takes metadata from the    *)
(* last occurrence, "kinds" looks metrics up by name only.                 *)
(***************************************************************************)
EXTENDS Table
CONSTANTS MaxSnaps, Mode, Names
VARIABLES buf,      \* column -> values not yet in a group
          disk,     \* column -> values in groups
          sizes, nbuf, lastmeta, n, ok
mvars == <<st, cols, fmeta, opts, rows, buf, disk, sizes, nbuf, lastmeta, n, ok>>

Frames == {<<"timestamp", "timestamp">>, <<"duration", "duration">>}
Metas == {<<>>, <<<<"metric", "a">>, <<"unit", "x">>>>, <<<<"metric", "b">>, <<"id", "1">>>>}
Value(k, i) == IF k = "histogram" THEN <<"0", ToString(i), "0">> ELSE ToString(i)
Readings(i) == {[k |-> k, name |-> nm, meta |-> me, v |-> Value(k, i)] : k \in {"counter", "histogram"}, nm \in Names, me \in Metas}
SnapsOf(i) == {[ver |-> 1, ts |-> ToString(i), dur |-> <<>>, meta |-> f, reads |-> r] :
                 f \in {<<>>, <<<<"f", ToString(i)>>>>}, r \in {<<>>} \cup {<<x>> : x \in Readings(i)}}

MInit == /\ TabInit /\ buf = <<>> /\ disk = <<>> /\ sizes = <<>> /\ nbuf = 0 /\ lastmeta = <<>> /\ n = 0 /\ ok = TRUE

\* what is pushed into the schema is pushed as a row later, or not
MSchema == /\ n < MaxSnaps /\ n' = n + 1
           /\ \E s \in SnapsOf(n + 1) :
                /\ SchemaPush(<<s>>)
                /\ lastmeta' = IF s.reads = <<>> THEN lastmeta
                               ELSE (<<s.reads[1].k, Canonical(s.reads[1])>> :> MapOf(s.reads[1].meta)) @@ lastmeta
           /\ UNCHANGED <<buf, disk, sizes, nbuf, ok>>
Cols == Frames \cup DOMAIN cols
MFinalize == /\ \E b \in 1..2, sp \in BOOLEAN : Finalize([batch |-> b, sparse |-> sp, codec |-> "none"], <<>>)
             /\ buf' = [c \in Cols |-> <<>>] /\ disk' = [c \in Cols |-> <<>>]
             /\ UNCHANGED <<sizes, nbuf, lastmeta, n, ok>>
Cell(c, s) ==
  LET hits == {j \in 1..Len(s.reads) : (s.reads[j].k = c[1] \/ Mode = "kinds") /\ Canonical(s.reads[j]) = c[2]}
  IN IF c[1] = "timestamp" THEN <<s.ts>> ELSE IF c[1] = "duration" THEN s.dur
     ELSE IF hits = {} THEN <<>>
     ELSE LET r == s.reads[CHOOSE j \in hits : TRUE]
          IN <<IF r.k = c[1] THEN r.v ELSE Value(c[1], n + 1)>>
MPush == /\ st = "rows" /\ n < MaxSnaps /\ n' = n + 1
         /\ \E s \in SnapsOf(n + 1) :
              /\ Push(<<s>>)
              /\ LET full == nbuf + 1 = opts.batch
                     new == [c \in DOMAIN buf |-> IF Mode = "shift" /\ Cell(c, s) = <<>> /\ c \notin Frames THEN buf[c]
                                                  ELSE Append(buf[c], Cell(c, s))]
                 IN IF full THEN /\ disk' = [c \in DOMAIN disk |-> disk[c] \o new[c]] /\ buf' = [c \in DOMAIN buf |-> <<>>]
                                 /\ sizes' = Append(sizes, opts.batch) /\ nbuf' = 0
                    ELSE buf' = new /\ nbuf' = nbuf + 1 /\ UNCHANGED <<disk, sizes>>
         /\ UNCHANGED <<lastmeta, ok>>
Show(p, vals) == [j \in 1..Len(vals) |-> IF vals[j] = <<>> THEN <<>>
                   ELSE IF p = "indices" THEN <<IndicesOf(vals[j][1])>>
                   ELSE IF p = "counts" THEN <<CountsOf(vals[j][1])>> ELSE vals[j]]
Columns(all) ==
  LET one(c, p) == [name |-> p[1], type |-> IF c \in Frames THEN "u64" ELSE DataType(c),
                    meta |-> IF c \in Frames THEN ("metric_type" :> c[1]) @@ ("unit" :> "nanoseconds")
                             ELSE ("metric_type" :> Type(c[1], opts.sparse)) @@ (IF Mode = "late" THEN lastmeta[c] ELSE cols[c]),
                    vals |-> Show(p[2], all[c])]
      S == UNION {{one(c, p) : p \in IF c \in Frames THEN {<<c[2], "scalar">>} ELSE Parts(c)} : c \in DOMAIN all}
      RECURSIVE AsSeq(_)
      AsSeq(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : TRUE IN <<x>> \o AsSeq(X \ {x})
  IN AsSeq(S)
MClose == /\ st = "rows"
          /\ LET lost == Mode = "lost"
                 all == IF lost THEN disk ELSE [c \in DOMAIN disk |-> disk[c] \o buf[c]]
                 groups == IF nbuf = 0 \/ lost THEN sizes ELSE Append(sizes, nbuf)
                 f == [n |-> Len(all[<<"timestamp", "timestamp">>]), groups |-> groups, meta |-> fmeta, codecs |-> <<>>,
                       cols |-> Columns(all)]
             IN ok' = FileRight(f)
          /\ st' = "closed"
          /\ UNCHANGED <<cols, fmeta, opts, rows, buf, disk, sizes, nbuf, lastmeta, n>>
MNext == MSchema \/ MFinalize \/ MPush \/ MClose
MSpec == MInit /\ [][MNext]_mvars
Inv == ok
=============================================================================

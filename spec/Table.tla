------------------------------- MODULE Table -------------------------------
(***************************************************************************)
(* Writing snapshots into a Parquet file (C19, C20, C21): building the     *)
(* schema, pushing rows, and what the finished file has to contain.        *)
(*                                                                         *)
(* A snapshot is [ver, ts, dur, meta, reads]: ts and dur in nanoseconds as *)
(* decimal numerals (dur is <<>> in version 1), meta its metadata and      *)
(* reads a sequence of [k, name, meta, v], where k is the kind, meta a     *)
(* sequence of pairs in key order and v a numeral or, for histograms, the  *)
(* sequence of all bucket counts.  Values are never computed with.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Aspects      \* which parts of a file are looked at

VARIABLES st,      \* "schema" | "rows" | "closed"
          cols,    \* <<kind, canonical name>> -> metadata of the first occurrence
          fmeta,   \* metadata of the file
          opts,    \* [batch, sparse, codec]
          rows     \* sequence of [ts, dur, cells]

tabvars == <<st, cols, fmeta, opts, rows>>

RECURSIVE MapOf(_)
MapOf(ps) == IF ps = <<>> THEN <<>> ELSE MapOf(Tail(ps)) @@ (ps[1][1] :> ps[1][2])

(***************************************************************************)
(* The canonical name of a metric.                                         *)
(***************************************************************************)
Ordered == <<"name", "op", "state", "direction">>
Silent == {"metric", "unit", "grouping_power", "max_value_power"}
RECURSIVE Chosen(_, _), Others(_)
Chosen(meta, keys) ==
  IF keys = <<>> THEN ""
  ELSE (IF keys[1] \in DOMAIN meta THEN "/" \o meta[keys[1]] ELSE "") \o Chosen(meta, Tail(keys))
Others(ps) ==
  IF ps = <<>> THEN ""
  ELSE (IF ps[1][1] \in Silent \cup {"name", "op", "state", "direction", "id"} THEN "" ELSE "/" \o ps[1][2]) \o Others(Tail(ps))
Canonical(r) ==
  LET meta == MapOf(r.meta)
  IN IF "metric" \notin DOMAIN meta THEN r.name
     ELSE meta["metric"] \o Chosen(meta, Ordered) \o Others(r.meta) \o Chosen(meta, <<"id">>)

(***************************************************************************)
(* Transitions.                                                            *)
(***************************************************************************)
TabInit == st = "schema" /\ cols = <<>> /\ fmeta = <<>> /\ opts = <<>> /\ rows = <<>>

RECURSIVE AddCols(_, _)
AddCols(c, reads) ==
  IF reads = <<>> THEN c
  ELSE AddCols(c @@ (<<reads[1].k, Canonical(reads[1])>> :> MapOf(reads[1].meta)), Tail(reads))

\* Columns and metadata of ss[lo..hi]; the first one counts.
RECURSIVE ColsIn(_, _, _)
ColsIn(ss, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE IF lo = hi THEN AddCols(<<>>, ss[lo].reads)
  ELSE LET mid == (lo + hi) \div 2 IN TLCEval(ColsIn(ss, lo, mid)) @@ TLCEval(ColsIn(ss, mid + 1, hi))
MetaIn(ss, having) == IF having = {} THEN <<>> ELSE MapOf(ss[CHOOSE j \in having : \A i \in having : j <= i].meta)
SchemaOf(c, f, ss) ==
  [c |-> c @@ ColsIn(ss, 1, Len(ss)),
   f |-> IF f = <<>> THEN MetaIn(ss, {j \in 1..Len(ss) : ss[j].meta # <<>>}) ELSE f]

SchemaPush(ss) ==
  /\ st = "schema"
  /\ LET r == SchemaOf(cols, fmeta, ss) IN cols' = r.c /\ fmeta' = r.f
  /\ UNCHANGED <<st, opts, rows>>

Finalize(o, extra) ==
  /\ st = "schema" /\ st' = "rows" /\ opts' = o /\ fmeta' = extra @@ fmeta /\ UNCHANGED <<cols, rows>>

\* The cell of a column; several readings of one snapshot may share it, then
\* it is one of them.
RowOf(s) ==
  LET named == TLCEval([j \in 1..Len(s.reads) |-> <<s.reads[j].k, Canonical(s.reads[j])>>])
      mine == {named[j] : j \in 1..Len(s.reads)}
  IN [ts |-> s.ts, dur |-> s.dur,
      cells |-> [c \in mine |-> {s.reads[j].v : j \in {i \in 1..Len(s.reads) : named[i] = c}}]]

Push(ss) == /\ st = "rows"
            /\ rows' = rows \o [j \in 1..Len(ss) |-> RowOf(ss[j])]
            /\ UNCHANGED <<st, cols, fmeta, opts>>

(***************************************************************************)
(* The finished file: [n, groups, cols, meta], where groups is the         *)
(* sequence of row group sizes and a column is [name, type, meta, vals],   *)
(* vals having <<>> for null and <<v>> for a value.                        *)
(***************************************************************************)
\* A sequence of row groups: full ones, and a smaller last one.
Groups(n, b) == [j \in 1..((n + b - 1) \div b) |-> IF j * b <= n THEN b ELSE n % b]

NonZero(v) == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i] # "0")

Type(k, sparse) == IF k = "histogram" /\ sparse THEN "sparse_histogram" ELSE k
ColumnMeta(c, sparse) == ("metric_type" :> Type(c[1], sparse)) @@ cols[c]
Holds(vals, c, Show(_)) ==
  \A j \in 1..Len(rows) :
    IF c \in DOMAIN rows[j].cells
    THEN vals[j] # <<>> /\ \E v \in rows[j].cells[c] : vals[j] = <<Show(v)>>
    ELSE vals[j] = <<>>

Same(v) == v
\* The columns of c: name and content.
Parts(c) ==
  IF c[1] # "histogram" THEN {<<c[2], "scalar">>}
  ELSE IF opts.sparse THEN {<<c[2] \o ":bucket_indices", "indices">>, <<c[2] \o ":bucket_counts", "counts">>}
  ELSE {<<c[2] \o ":buckets", "dense">>}
IndicesOf(v) == LET z == TLCEval(NonZero(v)) IN [i \in 1..Len(z) |-> ToString(z[i] - 1)]
CountsOf(v) == LET z == TLCEval(NonZero(v)) IN [i \in 1..Len(z) |-> v[z[i]]]
Content(p, vals, c) ==
  CASE p = "indices" -> Holds(vals, c, IndicesOf)
    [] p = "counts" -> Holds(vals, c, CountsOf)
    [] OTHER -> Holds(vals, c, Same)
\* Both halves of a sparse histogram belong to the same reading.
InStep(f, x, y, c) ==
  \A j \in 1..Len(rows) :
    c \in DOMAIN rows[j].cells =>
      \E v \in rows[j].cells[c] : f.cols[x].vals[j] = <<IndicesOf(v)>> /\ f.cols[y].vals[j] = <<CountsOf(v)>>

DataType(c) == CASE c[1] = "counter" -> "u64" [] c[1] = "gauge" -> "i64" [] OTHER -> "list"

Own == {"counter", "gauge", "histogram", "sparse_histogram"}
Frame(f, name) == {j \in 1..Len(f.cols) : f.cols[j].name = name
                     /\ ("metric_type" \in DOMAIN f.cols[j].meta => f.cols[j].meta["metric_type"] \notin Own)}

\* Which columns there are, with their metadata or without.
ColumnsRight(f) ==
  LET want == TLCEval([c \in DOMAIN cols |-> Parts(c)])
      metas == TLCEval([c \in DOMAIN cols |-> ColumnMeta(c, opts.sparse)])
  IN /\ Len(f.cols) = 2 + Cardinality(UNION {{<<c, p>> : p \in want[c]} : c \in DOMAIN cols})
     /\ \A n \in {"timestamp", "duration"} :
          \E j \in 1..Len(f.cols) : /\ Frame(f, n) = {j} /\ f.cols[j].type = "u64"
                                    /\ "colmeta" \in Aspects =>
                                         f.cols[j].meta = ("metric_type" :> n) @@ ("unit" :> "nanoseconds")
     /\ \A c \in DOMAIN cols : \A p \in want[c] :
          Cardinality({j \in 1..Len(f.cols) :
                         /\ f.cols[j].name = p[1] /\ f.cols[j].type = DataType(c)
                         /\ "metric_type" \in DOMAIN f.cols[j].meta
                         /\ f.cols[j].meta["metric_type"] = Type(c[1], opts.sparse)
                         /\ "colmeta" \in Aspects => f.cols[j].meta = metas[c]}) = 1
\* Columns of different kinds may have the same name; those of one kind do not.
ColumnAt(f, c, p) == {j \in 1..Len(f.cols) : /\ f.cols[j].name = p[1] /\ f.cols[j].type = DataType(c)
                                             /\ "metric_type" \in DOMAIN f.cols[j].meta
                                             /\ f.cols[j].meta["metric_type"] = Type(c[1], opts.sparse)}

\* C19, C21: what is in them.
CellsRight(f) ==
  /\ f.n = Len(rows)
  /\ \A j \in 1..Len(f.cols) : Len(f.cols[j].vals) = Len(rows)
  /\ LET t == f.cols[CHOOSE j \in Frame(f, "timestamp") : TRUE].vals
         d == f.cols[CHOOSE j \in Frame(f, "duration") : TRUE].vals
     IN \A j \in 1..Len(rows) : t[j] = <<rows[j].ts>> /\ d[j] = rows[j].dur
  /\ \A c \in DOMAIN cols :
       IF c[1] = "histogram" /\ opts.sparse
       THEN \E x \in ColumnAt(f, c, <<c[2] \o ":bucket_indices">>), y \in ColumnAt(f, c, <<c[2] \o ":bucket_counts">>) :
              /\ Content("indices", f.cols[x].vals, c) /\ Content("counts", f.cols[y].vals, c)
              /\ InStep(f, x, y, c)
       ELSE \A p \in Parts(c) : \E j \in ColumnAt(f, c, p) : Content(p[2], f.cols[j].vals, c)

GroupsRight(f) == f.groups = Groups(Len(rows), opts.batch)
MetaRight(f) == f.meta = fmeta
CodecRight(f) == \A j \in 1..Len(f.codecs) : f.codecs[j] = opts.codec

FileRight(f) ==
  /\ ColumnsRight(f) /\ CellsRight(f)
  /\ "groups" \in Aspects => GroupsRight(f)
  /\ "meta" \in Aspects => MetaRight(f)
  /\ "codec" \in Aspects => CodecRight(f)

Close(f) == /\ st = "rows" /\ FileRight(f) = TRUE /\ st' = "closed" /\ UNCHANGED <<cols, fmeta, opts, rows>>
=============================================================================

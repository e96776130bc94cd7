------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Encoding snapshots into a stream and decoding them again (C18): a       *)
(* queue.  Snapshots are opaque records; in a JSON stream every encoding   *)
(* is one line.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES fmt, stream, pos, at      \* at: the snapshot whose accessors are used

cvars == <<fmt, stream, pos, at>>
CInit == fmt = "" /\ stream = <<>> /\ pos = 0 /\ at = <<>>

New(f) == fmt' = f /\ stream' = <<>> /\ pos' = 0 /\ at' = <<>>

\* newlines: the places of line feeds in the encoding, len: its length
Encode(s, newlines, len) ==
  /\ fmt = "json" => newlines = <<len>>
  /\ stream' = Append(stream, s)
  /\ UNCHANGED <<fmt, pos, at>>

Decode(s) ==
  /\ pos < Len(stream) /\ pos' = pos + 1
  /\ s = stream[pos + 1]
  /\ at' = <<s>>
  /\ UNCHANGED <<fmt, stream>>

AtEnd == pos = Len(stream) /\ UNCHANGED cvars

\* An accessor, each used at most once on a snapshot.
Access(field, v) ==
  /\ at # <<>>
  /\ v = at[1][field]
  /\ UNCHANGED cvars
=============================================================================

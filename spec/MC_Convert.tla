----------------------------- MODULE MC_Convert -----------------------------
(***************************************************************************)
(* The two-pass algorithm, with a fault possible at every operation.       *)
(* Modes: "ok"; "eof1"/"eof2" take any failure of the first/second pass    *)
(* for the end of the recording; "close" ignores a failure of the final    *)
(* write; "stay" does not rewind; "cut" takes a snapshot that is cut off   *)
(* for the end.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS MaxItems, MaxFaults, Mode
VARIABLES tape,      \* sequence of "snap" | "junk" | "torn" (the last one only)
          pos, ph, seen, written, faults, bad, res
vars == <<tape, pos, ph, seen, written, faults, bad, res>>
Tapes == UNION {[1..n -> {"snap", "junk"}] : n \in 0..MaxItems}
Init == /\ \E t \in Tapes : tape = t \/ tape = Append(t, "torn")
        /\ pos = 1 /\ ph = "scan" /\ seen = 0 /\ written = 0 /\ faults = 0 /\ bad = FALSE /\ res = "-"
Dirty == \E i \in 1..Len(tape) : tape[i] # "snap"

End(r) == ph' = "end" /\ res' = r
\* An operation of the environment fails; h says what the algorithm makes of it.
Fails(h) == faults < MaxFaults /\ faults' = faults + 1 /\ bad' = TRUE /\ h
Works == UNCHANGED <<faults, bad>>
AtEnd == pos > Len(tape)

\* the end of the recording, seen in one of the passes
EndOf(p) == IF p = "scan" THEN ph' = "header" /\ UNCHANGED res ELSE ph' = "close" /\ UNCHANGED res
Read(p) ==
  /\ ph = p /\ UNCHANGED tape
  /\ \/ /\ Fails(IF (p = "scan" /\ Mode = "eof1") \/ (p = "rows" /\ Mode = "eof2") THEN EndOf(p) ELSE End("err"))
        /\ UNCHANGED <<pos, seen, written>>
     \/ /\ Works
        /\ IF AtEnd THEN EndOf(p) /\ UNCHANGED <<pos, seen, written>>
           ELSE IF tape[pos] = "snap"
           THEN /\ pos' = pos + 1 /\ UNCHANGED <<ph, res>>
                /\ IF p = "scan" THEN seen' = seen + 1 /\ UNCHANGED written ELSE written' = written + 1 /\ UNCHANGED seen
           ELSE /\ UNCHANGED <<pos, seen, written>>
                /\ IF Mode = "cut" /\ tape[pos] = "torn" THEN EndOf(p) ELSE End("err")
Header == /\ ph = "header" /\ UNCHANGED <<tape, pos, seen, written>>
          /\ (Fails(End("err")) \/ (Works /\ ph' = "rewind" /\ UNCHANGED res))
Rewind == /\ ph = "rewind" /\ UNCHANGED <<tape, seen, written>>
          /\ \/ Fails(End("err")) /\ UNCHANGED pos
             \/ Works /\ pos' = (IF Mode = "stay" THEN pos ELSE 1) /\ ph' = "rows" /\ UNCHANGED res
\* a group of rows is written at some time
Flush == /\ ph = "rows" /\ Fails(End("err")) /\ UNCHANGED <<tape, pos, seen, written>>
Close == /\ ph = "close" /\ UNCHANGED <<tape, pos, seen, written>>
         /\ (Fails(End(IF Mode = "close" THEN "ok" ELSE "err")) \/ (Works /\ End("ok")))
Next == Read("scan") \/ Read("rows") \/ Header \/ Rewind \/ Flush \/ Close
Spec == Init /\ [][Next]_vars
Inv == /\ res = "ok" => ~bad /\ ~Dirty /\ seen = Len(tape) /\ written = Len(tape)
       /\ res = "err" => bad \/ Dirty
Ends == <>(res # "-")
Live == Spec /\ WF_vars(Next)
=============================================================================

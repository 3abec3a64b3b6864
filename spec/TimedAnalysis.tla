--------------------------- MODULE TimedAnalysis ---------------------------
(***************************************************************************)
(* The recording of a verdict under a time limit, as an explicit state      *)
(* machine: an analysis works, then writes the fields of its verdict one by *)
(* one (in any order), the timer may go off between any two of these        *)
(* actions, and the handler must leave a record that is either empty of     *)
(* decisions or complete.  The enumeration then reads the record.           *)
(*                                                                          *)
(* Clears = TRUE is the behaviour required of the code; with Clears = FALSE *)
(* (handler leaves the record alone) TLC must find the torn record, which   *)
(* is the sanity check that the interruption points are really modelled.    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Clears
Fields == {"decided", "kind", "steps", "score", "from", "quasi"}

VARIABLES pc,        \* "work", "write", "returned", "handler", "read"
          written,   \* fields written so far
          armed,     \* the timer may still go off
          expanded   \* the enumeration used the verdict
vars == <<pc, written, armed, expanded>>

Init == pc = "work" /\ written = {} /\ armed = TRUE /\ expanded = FALSE

Work    == pc = "work" /\ UNCHANGED vars
Decide  == pc = "work" /\ pc' = "write" /\ UNCHANGED <<written, armed, expanded>>
GiveUp  == pc = "work" /\ pc' = "returned" /\ UNCHANGED <<written, armed, expanded>>
Write(f) == pc = "write" /\ f \notin written /\ written' = written \cup {f} /\ UNCHANGED <<pc, armed, expanded>>
Return  == pc = "write" /\ written = Fields /\ pc' = "returned" /\ UNCHANGED <<written, armed, expanded>>
Alarm   == pc \in {"work", "write", "returned"} /\ armed /\ armed' = FALSE /\ pc' = "handler" /\ UNCHANGED <<written, expanded>>
Handle  == pc = "handler" /\ pc' = "read" /\ written' = (IF Clears THEN {} ELSE written) /\ UNCHANGED <<armed, expanded>>
Cancel  == pc = "returned" /\ armed' = FALSE /\ pc' = "read" /\ UNCHANGED <<written, expanded>>
Expand  == pc = "read" /\ "decided" \in written /\ expanded' = TRUE /\ UNCHANGED <<pc, written, armed>>

Next == Work \/ Decide \/ GiveUp \/ (\E f \in Fields : Write(f)) \/ Return \/ Alarm \/ Handle \/ Cancel \/ Expand
Spec == Init /\ [][Next]_vars

NoTornRecord == pc = "read" => (written = Fields \/ ("decided" \notin written /\ "quasi" \notin written))
NoTornExpansion == expanded => written = Fields
=============================================================================

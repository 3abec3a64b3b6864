-------------------------- MODULE TimedRunsCases ---------------------------
(* Recorded histories of analyses under time limits, judged by TimedRuns. *)
EXTENDS TimedRuns, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
CInit == Init /\ i \in 1..Len(Cases) /\ out = "no"
CNext == /\ out = "no"
         /\ out' = Judge(Cases[i].h)
         /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o out')
         /\ UNCHANGED <<i, vars>>
CSpec == CInit /\ [][CNext]_<<vars, i, out>>
=============================================================================

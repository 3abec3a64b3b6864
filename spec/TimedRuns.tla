----------------------------- MODULE TimedRuns -----------------------------
(***************************************************************************)
(* A process that analyses one machine after another, each under its own    *)
(* time limit, with the timer explicit: it is set when an analysis starts,  *)
(* runs while the analysis or anything after it runs, and goes off once.    *)
(* An analysis that needs more time than its limit ends at the limit,       *)
(* undecided and marked as such; one that needs less gives its full         *)
(* verdict; and a timer never goes off outside the analysis it was set for. *)
(*                                                                          *)
(* Stops = TRUE is what is required; with Stops = FALSE (the timer is left  *)
(* running after an analysis) TLC must find the stray alarm.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Stops, Limits, Needs, MaxRuns

VARIABLES pc,      \* "idle", "work", "hit" (a stray alarm arrived)
          left,    \* what the timer still has to run; 0: off
          need,    \* what the current analysis still needs
          hist     \* finished analyses
vars == <<pc, left, need, hist>>
Min(a, b) == IF a < b THEN a ELSE b

Init == pc = "idle" /\ left = 0 /\ need = [n |-> 0, l |-> 0, r |-> 0] /\ hist = <<>>
Start(l, n) == /\ pc = "idle" /\ Len(hist) < MaxRuns
               /\ pc' = "work" /\ left' = l /\ need' = [n |-> n, l |-> l, r |-> n] /\ UNCHANGED hist
Finish(timed) == hist' = Append(hist, [need |-> need.n, limit |-> need.l, took |-> need.n - need.r, timed |-> timed, decided |-> ~timed])
Tick == \/ /\ pc = "work" /\ need.r > 0 /\ left # 1
           /\ left' = (IF left > 0 THEN left - 1 ELSE 0) /\ need' = [need EXCEPT !.r = @ - 1] /\ UNCHANGED <<pc, hist>>
        \/ /\ pc = "idle" /\ left > 1 /\ left' = left - 1 /\ UNCHANGED <<pc, need, hist>>
Done == /\ pc = "work" /\ need.r = 0 /\ pc' = "idle" /\ left' = (IF Stops THEN 0 ELSE left) /\ Finish(FALSE) /\ UNCHANGED need
Alarm == /\ left = 1 /\ left' = 0
         /\ \/ pc = "work" /\ pc' = "idle" /\ Finish(TRUE) /\ UNCHANGED need
            \/ pc = "idle" /\ pc' = "hit" /\ UNCHANGED <<need, hist>>
Next == Tick \/ Done \/ Alarm \/ \E l \in Limits, n \in Needs : Start(l, n)
Spec == Init /\ [][Next]_vars

NoStrayAlarm == pc # "hit"
Obeyed(e) == /\ e.limit > 0 => e.took <= e.limit
             /\ e.timed <=> ~e.decided
             /\ e.limit > 0 /\ e.need > e.limit => e.timed
             /\ e.limit = 0 \/ e.need < e.limit - 1 => e.decided
LimitsObeyed == \A i \in DOMAIN hist : Obeyed(hist[i])

\* ---------------------------------------------------------------- histories
\* A recorded history: per analysis [endless, limit, took, slack (all ms), timed,
\* decided, same (the record equals that of the analysis alone), stray].
Judge(h) ==
  LET bad == {i \in DOMAIN h :
                \/ h[i].stray
                \/ h[i].endless /\ (~h[i].timed \/ h[i].decided \/ h[i].took > h[i].limit + h[i].slack \/ h[i].took < h[i].limit)
                \/ ~h[i].endless /\ (h[i].timed \/ ~h[i].same)} IN
  IF bad = {} THEN "ok"
  ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
       (CASE h[i].stray -> "stray-alarm"
          [] h[i].endless /\ ~h[i].timed -> "not-marked"
          [] h[i].endless /\ h[i].decided -> "decided"
          [] h[i].endless /\ h[i].took < h[i].limit -> "too-early"
          [] h[i].endless -> "too-late"
          [] h[i].timed -> "stopped-for-nothing"
          [] OTHER -> "differs") \o "-" \o ToString(i)
=============================================================================

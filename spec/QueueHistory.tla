---------------------------- MODULE QueueHistory ----------------------------
(***************************************************************************)
(* What a work queue promises, as a specification of its observable events; *)
(* recorded histories of the real queues are judged against it.             *)
(*   push w j   process w hands in job j     pop w j   w is given job j     *)
(*   ask w      w asks for a job             none w    w is told: no more   *)
(*   end        the master returns                                          *)
(* kind "mpi": NW workers; "lifo"/"fifo": one process, none means empty now. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, k, q, asking, told, why
vars == <<i, k, q, asking, told, why>>

CS == Cases[i]
E == CS.ev[k]
Workers == 1..CS.workers
Init == i \in 1..Len(Cases) /\ k = 1 /\ q = <<>> /\ asking = {} /\ told = {} /\ why = "ok"

IndexOf(x) == CHOOSE j \in 1..Len(q) : q[j] = x
Without(j) == SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
In(x) == \E j \in 1..Len(q) : q[j] = x

PopOK == CASE CS.kind = "lifo" -> q # <<>> /\ Last(q) = E[3]
           [] CS.kind = "fifo" -> q # <<>> /\ Head(q) = E[3]
           [] OTHER -> In(E[3])

Next ==
  /\ why = "ok" /\ k <= Len(CS.ev)
  /\ k' = k + 1 /\ UNCHANGED i
  /\ CASE E[1] = "push" -> q' = Append(q, E[3]) /\ UNCHANGED <<asking, told, why>>
       [] E[1] = "pop" -> IF PopOK
                          THEN q' = Without(IF CS.kind = "lifo" THEN Len(q) ELSE IF CS.kind = "fifo" THEN 1 ELSE IndexOf(E[3]))
                               /\ asking' = asking \ {E[2]} /\ UNCHANGED <<told, why>>
                          ELSE why' = "job-not-there" /\ UNCHANGED <<q, asking, told>>
       [] E[1] = "ask" -> asking' = asking \cup {E[2]} /\ UNCHANGED <<q, told, why>>
       [] E[1] = "none" -> IF q # <<>> THEN why' = "told-none-with-jobs-left" /\ UNCHANGED <<q, asking, told>>
                           ELSE IF CS.kind = "mpi" /\ asking \cup told # Workers
                           THEN why' = "told-none-while-others-work" /\ UNCHANGED <<q, asking, told>>
                           ELSE told' = (IF CS.kind = "mpi" THEN told \cup {E[2]} ELSE told) /\ UNCHANGED <<q, asking, why>>
       [] OTHER -> UNCHANGED <<q, asking, told, why>>
Report ==
  /\ why # "reported" /\ (why # "ok" \/ k > Len(CS.ev))
  /\ LET v == IF why # "ok" THEN why
              ELSE IF CS.kind = "mpi" /\ q # <<>> THEN "jobs-lost"
              ELSE IF CS.kind = "mpi" /\ told # Workers THEN "workers-never-told"
              ELSE "ok"
     IN PrintT("V|" \o ToString(CS.id) \o "|" \o v)
  /\ why' = "reported" /\ UNCHANGED <<i, k, q, asking, told>>
Spec == Init /\ [][Next \/ Report]_vars
==============================================================================

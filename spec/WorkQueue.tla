----------------------------- MODULE WorkQueue -----------------------------
(***************************************************************************)
(* The distributed work queue: a master and NW workers exchanging messages. *)
(* Messages of one sender to one receiver arrive in the order sent, at any  *)
(* later moment; the master looks at what has arrived kind by kind, so      *)
(* messages may arrive between two looks.  With SYNC, a send only ends when *)
(* the message is taken (MPI permits both).                                 *)
(*                                                                          *)
(* A job may create further jobs: KIDS[j] are the jobs created by job j.    *)
(* A worker keeps its jobs in a local stack and pushes the surplus back     *)
(* (older ones first) when it grows beyond MaxLocal.                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, IOUtils

NW == atoi(IOEnv.WORKERS)
NJ == atoi(IOEnv.JOBS)            \* number of jobs
NI == atoi(IOEnv.INITIAL)         \* jobs 1..NI are given to the master
SHAPE == atoi(IOEnv.SHAPE)        \* which job creates which
MaxLocal == atoi(IOEnv.MAXLOCAL)
TargetLocal == atoi(IOEnv.TARGET)
MinBatch == atoi(IOEnv.MINBATCH)
ORDER == IOEnv.ORDER              \* "waits-first" (as designed) or "pushes-first" (broken on purpose)
SYNC == IOEnv.SYNC = "1"
TRACE == IOEnv.TRACE = "1"

W == 1..NW
\* Job j > NI is created by an earlier job: SHAPE picks which.
Parent(j) == IF SHAPE = 0 THEN j - 1 ELSE IF SHAPE = 1 THEN ((j - NI - 1) % NI) + 1 ELSE (j \div 2)
Kids(j) == SetToSortSeq({k \in (NI + 1)..NJ : Parent(k) = j}, <)

VARIABLES
  mq,      \* the master's queue
  mpc,     \* "probe", "waits", "pushes", "decide", "done"
  state,   \* what the master thinks of each worker: "busy" / "waiting"
  lq,      \* local queues
  wpc,     \* "ask", "recv", "work", "told", "sending"
  cur,     \* job being worked on (0: none)
  up,      \* messages sent by worker w and not yet arrived
  inbox,   \* messages of worker w arrived and not yet taken by the master
  down,    \* messages sent to worker w and not yet taken
  done,    \* how often each job has been worked on
  hist     \* actors, for replay
vars == <<mq, mpc, state, lq, wpc, cur, up, inbox, down, done, hist>>
view == <<mq, mpc, state, lq, wpc, cur, up, inbox, down, done>>

Log(a) == hist' = IF TRACE THEN Append(hist, a) ELSE hist

Init == /\ mq = [j \in 1..NI |-> j] /\ mpc = "probe"
        /\ state = [w \in W |-> "busy"] /\ lq = [w \in W |-> <<>>] /\ wpc = [w \in W |-> "ask"]
        /\ cur = [w \in W |-> 0] /\ up = [w \in W |-> <<>>] /\ inbox = [w \in W |-> <<>>]
        /\ down = [w \in W |-> <<>>] /\ done = [j \in 1..NJ |-> 0] /\ hist = <<>>

\* A synchronous sender waits until its message has been taken.
Free(w) == ~SYNC \/ (up[w] = <<>> /\ inbox[w] = <<>>)

Ask(w) == /\ wpc[w] = "ask" /\ Free(w)
          /\ IF lq[w] # <<>>
             THEN /\ cur' = [cur EXCEPT ![w] = Last(lq[w])] /\ lq' = [lq EXCEPT ![w] = Front(@)]
                  /\ done' = [done EXCEPT ![Last(lq[w])] = @ + 1]
                  /\ wpc' = [wpc EXCEPT ![w] = "work"] /\ UNCHANGED up
             ELSE /\ up' = [up EXCEPT ![w] = Append(@, <<"wait", <<>>>>)]
                  /\ wpc' = [wpc EXCEPT ![w] = "recv"] /\ UNCHANGED <<cur, lq, done>>
          /\ Log(w) /\ UNCHANGED <<mq, mpc, state, inbox, down>>

Receive(w) == /\ wpc[w] = "recv" /\ down[w] # <<>>
              /\ LET m == Head(down[w]) IN
                 /\ down' = [down EXCEPT ![w] = Tail(@)]
                 /\ IF m = <<>>
                    THEN wpc' = [wpc EXCEPT ![w] = "told"] /\ UNCHANGED lq
                    ELSE lq' = [lq EXCEPT ![w] = @ \o m] /\ wpc' = [wpc EXCEPT ![w] = "ask"]
              /\ Log(w) /\ UNCHANGED <<mq, mpc, state, cur, up, inbox, done>>

Work(w) == /\ wpc[w] = "work" /\ Free(w)
           /\ LET q == lq[w] \o Kids(cur[w])
                  extra == Len(q) - TargetLocal
              IN IF Len(q) > MaxLocal
                 THEN /\ up' = [up EXCEPT ![w] = Append(@, <<"push", SubSeq(q, 1, extra)>>)]
                      /\ lq' = [lq EXCEPT ![w] = SubSeq(q, extra + 1, Len(q))]
                 ELSE lq' = [lq EXCEPT ![w] = q] /\ UNCHANGED up
           /\ cur' = [cur EXCEPT ![w] = 0] /\ wpc' = [wpc EXCEPT ![w] = "ask"]
           /\ Log(w) /\ UNCHANGED <<mq, mpc, state, inbox, down, done>>

Arrive(w) == /\ up[w] # <<>>
             /\ inbox' = [inbox EXCEPT ![w] = Append(@, Head(up[w]))] /\ up' = [up EXCEPT ![w] = Tail(@)]
             /\ Log(100 + w) /\ UNCHANGED <<mq, mpc, state, lq, wpc, cur, down, done>>

Has(w, kind) == \E j \in 1..Len(inbox[w]) : inbox[w][j][1] = kind
FirstOf(w, kind) == CHOOSE j \in 1..Len(inbox[w]) : inbox[w][j][1] = kind /\ \A i \in 1..(j - 1) : inbox[w][i][1] # kind
Take(w, j) == inbox' = [inbox EXCEPT ![w] = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]

Probe == /\ mpc = "probe" /\ \E w \in W : inbox[w] # <<>>
         /\ mpc' = IF ORDER = "waits-first" THEN "waits" ELSE "pushes"
         /\ Log(0) /\ UNCHANGED <<mq, state, lq, wpc, cur, up, inbox, down, done>>

Waits == /\ mpc = "waits"
         /\ IF \E w \in W : Has(w, "wait")
            THEN \E w \in W : /\ Has(w, "wait") /\ Take(w, FirstOf(w, "wait"))
                              /\ state' = [state EXCEPT ![w] = "waiting"] /\ UNCHANGED mpc
            ELSE mpc' = (IF ORDER = "waits-first" THEN "pushes" ELSE "decide") /\ UNCHANGED <<inbox, state>>
         /\ Log(0) /\ UNCHANGED <<mq, lq, wpc, cur, up, down, done>>

Pushes == /\ mpc = "pushes"
          /\ IF \E w \in W : Has(w, "push")
             THEN \E w \in W : LET j == FirstOf(w, "push") IN
                               /\ Has(w, "push") /\ Take(w, j) /\ mq' = mq \o inbox[w][j][2] /\ UNCHANGED mpc
             ELSE mpc' = (IF ORDER = "waits-first" THEN "decide" ELSE "waits") /\ UNCHANGED <<inbox, mq>>
          /\ Log(0) /\ UNCHANGED <<state, lq, wpc, cur, up, down, done>>

Waiting == {w \in W : state[w] = "waiting"}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* Hand out batches until the jobs or the waiting workers are exhausted.
RECURSIVE HandOut(_, _, _)
HandOut(q, ws, d) ==
  IF q = <<>> \/ ws = {} THEN [q |-> q, ws |-> ws, d |-> d]
  ELSE LET w == CHOOSE x \in ws : \A y \in ws : x <= y
           n == Min2(Len(q), Max2(MinBatch, Len(q) \div Cardinality(ws)))
       IN HandOut(SubSeq(q, n + 1, Len(q)), ws \ {w}, [d EXCEPT ![w] = Append(@, SubSeq(q, 1, n))])

Decide == /\ mpc = "decide"
          /\ IF mq = <<>> /\ Waiting = W
             THEN /\ down' = [w \in W |-> Append(down[w], <<>>)] /\ mpc' = "done" /\ UNCHANGED <<mq, state>>
             ELSE LET r == HandOut(mq, Waiting, down) IN
                  /\ mq' = r.q /\ down' = r.d /\ mpc' = "probe"
                  /\ state' = [w \in W |-> IF w \in Waiting \ r.ws THEN "busy" ELSE state[w]]
          /\ Log(0) /\ UNCHANGED <<lq, wpc, cur, up, inbox, done>>

Finished == mpc = "done" /\ \A w \in W : wpc[w] = "told"
Next == \/ \E w \in W : Ask(w) \/ Receive(w) \/ Work(w) \/ Arrive(w)
        \/ Probe \/ Waits \/ Pushes \/ Decide
        \/ (Finished /\ ~TRACE /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
Flat(sq) == FoldLeft(LAMBDA a, m : a \o m[2], <<>>, sq)
Places == mq \o FoldLeft(LAMBDA a, w : a \o lq[w] \o Flat(up[w]) \o Flat(inbox[w]) \o FoldLeft(LAMBDA b, m : b \o m, <<>>, down[w]),
                         <<>>, [w \in W |-> w])
Count(j) == Len(SelectSeq(Places, LAMBDA x : x = j))
Created(j) == j <= NI \/ (done[Parent(j)] = 1 /\ \A w \in W : cur[w] # Parent(j))

\* Every existing job is in exactly one place or has been worked on once.
Conserved == \A j \in 1..NJ : Count(j) + done[j] = (IF Created(j) THEN 1 ELSE 0)
\* No one is told that there is no work while there is, or may still be, some.
ToldRight == (\E w \in W : wpc[w] = "told") => \A j \in 1..NJ : done[j] = 1
\* A master waiting for a message gets one: no deadlock short of the end.
NoDeadlock == ENABLED Next
Terminates == <>Finished
PrintTrace == Finished => PrintT("T|" \o FoldLeft(LAMBDA a, x : a \o "," \o ToString(x), "", hist))
==============================================================================

------------------------------ MODULE CPSCert ------------------------------
(***************************************************************************)
(* Certificates of closed position sets.  A certificate is a set of windows *)
(* (w cells, state, direction; b cells lie in front of the head) and, for   *)
(* either side, a set of edges between blocks of b cells.  It proves that    *)
(* the machine runs for ever if                                             *)
(*   - the blank start window and the blank edges are in it,                *)
(*   - no window halts before the head leaves it,                           *)
(*   - what a window becomes, with every block that may follow in front, is *)
(*     in it, and so are the edges the blocks left behind add.              *)
(* SoundSpec: such a set covers the machine's run (checked by TLC by         *)
(*   following the run of every machine of a small size, block by block).   *)
(* CaseSpec: is a recorded certificate of the real filter such a set?       *)
(***************************************************************************)
EXTENDS Deciders, Json, IOUtils

\* Until the head leaves the window, halts, or repeats a configuration (Brent).
RECURSIVE Inside(_, _, _, _, _, _, _, _, _)
Inside(tm, q, win, p, sq, swin, sp, pow, lam) ==
  IF p < 1 \/ p > Len(win) THEN [out |-> "left", q |-> q, win |-> win, d |-> IF p < 1 THEN L ELSE R]
  ELSE IF lam > 0 /\ q = sq /\ p = sp /\ win = swin THEN [out |-> "loop", q |-> q, win |-> win, d |-> L]
  ELSE LET t == Behaviour(Cell(tm, q, win[p]))
           new == pow = lam
       IN IF t[3] = HALT THEN [out |-> "halt", q |-> HALT, win |-> win, d |-> L]
          ELSE Inside(tm, t[3], [win EXCEPT ![p] = t[1]], p + (IF t[2] = R THEN 1 ELSE -1),
                      IF new THEN q ELSE sq, IF new THEN win ELSE swin, IF new THEN p ELSE sp,
                      IF new THEN 2 * pow ELSE pow, IF new THEN 1 ELSE lam + 1)
RunWindow(tm, b, w, cf) == LET p == StartPos(cf.d, b, w) IN Inside(tm, cf.q, cf.win, p, cf.q, cf.win, p, 1, 0)

StartWindow(w) == [q |-> 0, d |-> R, win |-> Zeros(w)]
BlankEdges(b) == {<<d, Zeros(b), Zeros(b)>> : d \in {L, R}}

Follows(edges, d, src) == {e[3] : e \in {y \in edges : y[1] = d /\ y[2] = src}}

\* What is wrong with the certificate X of tm ("ok": nothing).
WindowFault(tm, b, w, X, cf) ==
  LET r == RunWindow(tm, b, w, cf) IN
  IF r.out = "halt" THEN "window-halts"
  ELSE IF r.out = "loop" THEN "ok"
  ELSE LET back == Other(r.d)
           far == BlockAt(r.win, b, back, 0)
           needed == {<<back, BlockAt(r.win, b, back, 1), far>>}
                     \cup {<<back, far, x>> : x \in Follows(X.edges, back, BlockAt(cf.win, b, back, 0))}
           nexts == {[q |-> r.q, d |-> r.d,
                      win |-> IF r.d = L THEN f \o SubSeq(r.win, 1, w - b) ELSE SubSeq(r.win, b + 1, w) \o f]
                     : f \in Follows(X.edges, r.d, BlockAt(cf.win, b, r.d, 0))}
       IN IF ~(needed \subseteq X.edges) THEN "edge-missing"
          ELSE IF ~(nexts \subseteq X.cfgs) THEN "window-missing"
          ELSE "ok"

CertFault(tm, b, w, X) ==
  IF \E cf \in X.cfgs : Len(cf.win) # w THEN "window-size"
  ELSE IF \E e \in X.edges : Len(e[2]) # b \/ Len(e[3]) # b THEN "block-size"
  ELSE IF StartWindow(w) \notin X.cfgs THEN "start-missing"
  ELSE IF ~(BlankEdges(b) \subseteq X.edges) THEN "blank-edge-missing"
  ELSE LET F == {WindowFault(tm, b, w, X, cf) : cf \in X.cfgs} \ {"ok"}
       IN IF F = {} THEN "ok" ELSE CHOOSE x \in F : TRUE

------------------------------------------------------------------------------
(* A closed set covers the run: follow the run on a wide tape T, the window at o. *)
RECURSIVE Close(_, _, _, _, _)
Close(tm, b, w, X, max) ==
  LET Y == CPSStep(tm, b, w, X) IN
  IF Y.halt \/ Cardinality(Y.cfgs) > max THEN [cfgs |-> {}, edges |-> {}]
  ELSE IF Y.cfgs = X.cfgs /\ Y.edges = X.edges THEN [cfgs |-> X.cfgs, edges |-> X.edges]
  ELSE Close(tm, b, w, Y, max)
Closed(tm, b, w, max) == Close(tm, b, w, [halt |-> FALSE, cfgs |-> {StartWindow(w)}, edges |-> BlankEdges(b)], max)

OnTape(T, b, o) == SubSeq(T, o, o + b - 1)
\* Every block to the left of the window at o follows its inner neighbour, and so to the right.
LeftCovered(X, T, b, o)  == \A j \in 1..((o - 1) \div b) : <<L, OnTape(T, b, o - (j - 1) * b), OnTape(T, b, o - j * b)>> \in X.edges
RightCovered(X, T, b, e) == \A j \in 1..((Len(T) - e) \div b) :
                              <<R, OnTape(T, b, e - b + 1 + (j - 1) * b), OnTape(T, b, e - b + 1 + j * b)>> \in X.edges
RECURSIVE RunCovered(_, _, _, _, _, _, _, _, _)
RunCovered(tm, b, w, X, T, o, q, d, n) ==
  LET cf == [q |-> q, d |-> d, win |-> SubSeq(T, o, o + w - 1)] IN
  /\ cf \in X.cfgs /\ LeftCovered(X, T, b, o) /\ RightCovered(X, T, b, o + w - 1)
  /\ LET r == RunWindow(tm, b, w, cf)
         o2 == IF r.d = L THEN o - b ELSE o + b
         T2 == [j \in 1..Len(T) |-> IF j >= o /\ j < o + w THEN r.win[j - o + 1] ELSE T[j]]
     IN CASE r.out = "halt" -> FALSE
          [] r.out = "loop" -> TRUE
          [] OTHER -> n = 0 \/ o2 < 1 \/ o2 + w - 1 > Len(T) \/ RunCovered(tm, b, w, X, T2, o2, r.q, r.d, n - 1)

S == atoi(IOEnv.STATES)
Y == atoi(IOEnv.SYMBOLS)
BOUND == atoi(IOEnv.BOUND)
STRIDE == atoi(IOEnv.STRIDE)
PHASE == atoi(IOEnv.PHASE)
VARIABLES code, par, done
vars == <<code, par, done>>
NCell == 2 * S * Y + 1
CellOf(x) == IF x = 0 THEN <<-1, -1, -1>>
             ELSE LET y == x - 1 IN <<y % Y, (y \div Y) % 2, y \div (2 * Y)>>
Machine(n) == [q \in 1..S |-> [s \in 1..Y |-> CellOf((n \div (NCell ^ ((q - 1) * Y + (s - 1)))) % NCell)]]
SoundInit == /\ code \in {n \in 0..(NCell ^ (S * Y) - 1) : n % STRIDE = PHASE % STRIDE}
             /\ par \in {<<1, 2>>, <<1, 3>>, <<2, 4>>, <<2, 5>>}
             /\ done = "no"
SoundNext == /\ done = "no"
             /\ LET tm == Machine(code)
                    b == par[1]
                    w == par[2]
                    X == Closed(tm, b, w, 60)
                    M == w + 2 * b * BOUND
                IN done' = IF X.cfgs = {} THEN "unknown"
                           ELSE IF CertFault(tm, b, w, X) # "ok" THEN "closure-is-no-certificate"
                           ELSE IF ~RunCovered(tm, b, w, X, Zeros(M), b * BOUND + 1, 0, R, 3 * BOUND) THEN "not-covered"
                           ELSE IF Halted(Run(tm, Blank, 30)) THEN "halts"
                           ELSE "proof"
             /\ UNCHANGED <<code, par>>
SoundSpec == SoundInit /\ [][SoundNext]_vars
Sound == done \in {"no", "unknown", "proof"}

------------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
Set(sq) == {sq[j] : j \in 1..Len(sq)}
CaseInit == code \in 1..Len(Cases) /\ par = <<>> /\ done = "no"
CaseNext == /\ done = "no"
            /\ LET cs == Cases[code] IN
               /\ done' = CertFault(cs.tm, cs.b, cs.w, [cfgs |-> Set(cs.cfgs), edges |-> Set(cs.edges)])
               /\ PrintT("V|" \o ToString(cs.id) \o "|" \o done')
            /\ UNCHANGED <<code, par>>
CaseSpec == CaseInit /\ [][CaseNext]_vars
==============================================================================

------------------------------ MODULE Deciders ------------------------------
(***************************************************************************)
(* The non-halting deciders as abstract interpretations of the machine in   *)
(* TuringMachine: closed tape languages (four shapes), closed position      *)
(* sets, the static reverse-engineering argument and backtracking.  Each    *)
(* decider is specified as an operator that returns TRUE iff it proves the  *)
(* machine infinite; what makes it right (its language is inductive) is     *)
(* specified too and checked by TLC in DecidersCheck.                       *)
(***************************************************************************)
EXTENDS TuringMachine, FiniteSets, FiniteSetsExt, TLC

Other(d) == 1 - d
States(tm) == 0..(NumStates(tm) - 1)
Symbols(tm) == 0..(NumSymbols(tm) - 1)
HaltCells(tm) == {x \in States(tm) \X Symbols(tm) : Behaviour(Cell(tm, x[1], x[2]))[3] = HALT}

\* Half tapes of a configuration that last moved in direction d, nearest cell first:
\* the head looks at the first cell of side d.
Side(c, d, x) ==
  LET near == IF x = L THEN Reverse(c.l) ELSE Reverse(c.r)
  IN TrimBottom(Reverse(IF x = d THEN <<c.s>> \o near ELSE near))
  \* (trimmed, outermost first)
Word(c, d, x) == Reverse(Side(c, d, x))

------------------------------------------------------------------------------
(* Closed tape languages.  A side is a tuple of symbol sets:                  *)
(*   "as"   A* 0..      "asb"  A* B 0..    "abs"  A B* 0..   "asbc" A* B C 0.. *)

NoSide(shape) == CASE shape = "as" -> <<{}>> [] shape = "asbc" -> <<{}, {}, {}>> [] OTHER -> <<{}, {}>>

\* Which symbols can be first, and from which part of the side they come.
Firsts(shape, sd) ==
  CASE shape = "as" -> {<<1, s>> : s \in sd[1]} \cup {<<2, 0>>}
    [] shape = "abs" -> {<<1, s>> : s \in sd[1]}
    [] OTHER -> {<<1, s>> : s \in sd[1]} \cup {<<2, s>> : s \in sd[2]}

\* What is left of the side once its first symbol (from part i) has been passed.
Rest(shape, sd, i) ==
  CASE shape = "abs" -> <<sd[2] \cup {0}, sd[2]>>
    [] i = 1 -> sd
    [] shape = "as" -> <<{}>>
    [] shape = "asb" -> <<{}, {0}>>
    [] shape = "asbc" -> <<{}, sd[3], {0}>>

\* The side after its first symbol (from part i) was replaced by w.
Put(shape, sd, i, w) ==
  CASE shape = "abs" -> <<{w}, sd[2]>>
    [] i = 1 -> [sd EXCEPT ![1] = @ \cup {w}]
    [] shape = "as" -> <<{w}>>
    [] shape = "asb" -> <<{}, {w}>>
    [] shape = "asbc" -> <<{}, {w}, sd[3]>>

\* The side after w was put in front of it.
ConsSide(shape, sd, w) ==
  IF shape = "abs" THEN <<{w}, sd[1] \cup sd[2]>> ELSE [sd EXCEPT ![1] = @ \cup {w}]

InSide(shape, sd, w) ==
  LET n == Len(w)
      at(j) == IF j <= n THEN w[j] ELSE 0
      upto(k) == \A j \in 1..k : at(j) \in sd[1]
  IN CASE shape = "as" -> upto(n)
       [] shape = "asb" -> \E k \in {n - 1, n} : k >= 0 /\ upto(k) /\ at(k + 1) \in sd[2]
       [] shape = "abs" -> at(1) \in sd[1] /\ \A j \in 2..n : w[j] \in sd[2]
       [] shape = "asbc" -> \E k \in {n - 2, n - 1, n} :
                              k >= 0 /\ upto(k) /\ at(k + 1) \in sd[2] /\ at(k + 2) \in sd[3]

\* The smallest side that contains the word (nearest first, trimmed).
Enclose(shape, w) ==
  LET n == Len(w)
      rng(a, b) == {w[j] : j \in a..b}
  IN CASE shape = "as" -> <<rng(1, n)>>
       [] shape = "asb" -> IF n = 0 THEN <<{}, {0}>> ELSE <<rng(1, n - 1), {w[n]}>>
       [] shape = "abs" -> IF n = 0 THEN <<{0}, {}>> ELSE <<{w[1]}, rng(2, n)>>
       [] shape = "asbc" -> IF n = 0 THEN <<{}, {0}, {0}>>
                            ELSE IF n = 1 THEN <<{}, {w[1]}, {0}>>
                            ELSE <<rng(1, n - 2), {w[n - 1]}, {w[n]}>>

\* A language: for every (state, direction) reached, a pair of sides.
Keys(tm) == States(tm) \X {L, R}
NoLang(tm, shape) == [k \in Keys(tm) |-> [in |-> FALSE, sd |-> <<NoSide(shape), NoSide(shape)>>]]

JoinSide(a, b) == [j \in 1..Len(a) |-> a[j] \cup b[j]]
Join(e, sd) == [in |-> TRUE, sd |-> <<JoinSide(e.sd[1], sd[1]), JoinSide(e.sd[2], sd[2])>>]

\* One transition of the abstract machine: entry k of language T, first symbol x = <<part, symbol>>.
Post(tm, shape, T, k, x) ==
  LET t == Behaviour(Cell(tm, k[1], x[2]))
      d == k[2]
      ahead == T[k].sd[d + 1]
      behind == T[k].sd[Other(d) + 1]
      newAhead  == IF t[2] = d THEN Rest(shape, ahead, x[1]) ELSE Put(shape, ahead, x[1], t[1])
      newBehind == IF t[2] = d THEN ConsSide(shape, behind, t[1]) ELSE behind
  IN [q |-> t[3], d |-> t[2], sd |-> IF d = L THEN <<newAhead, newBehind>> ELSE <<newBehind, newAhead>>]

Succs(tm, shape, T) ==
  UNION {{Post(tm, shape, T, k, x) : x \in Firsts(shape, T[k].sd[k[2] + 1])} : k \in {y \in Keys(tm) : T[y].in}}

AddAll(T, posts) == FoldSet(LAMBDA p, U : [U EXCEPT ![<<p.q, p.d>>] = Join(@, p.sd)], T, posts)

\* The least language that contains T and is closed under the machine; <<>> if it has to halt.
RECURSIVE Closure(_, _, _)
Closure(tm, shape, T) ==
  LET posts == Succs(tm, shape, T) IN
  IF \E p \in posts : p.q = HALT THEN <<>>
  ELSE LET U == AddAll(T, posts) IN IF U = T THEN <<T>> ELSE Closure(tm, shape, U)

StartLang(tm, shape, c, d) ==
  [NoLang(tm, shape) EXCEPT ![<<c.q, d>>] =
     [in |-> TRUE, sd |-> <<Enclose(shape, Word(c, d, L)), Enclose(shape, Word(c, d, R))>>]]

LastDir(tm, c) == IF c.n = 0 THEN R ELSE Behaviour(Cell(tm, c.lq, c.ls))[2]

\* The language found for the configuration after `cutoff` steps (<<>>: none).
TapeLanguage(tm, shape, cutoff) ==
  LET c == Run(tm, Blank, cutoff) IN
  IF Halted(c) THEN <<>> ELSE Closure(tm, shape, StartLang(tm, shape, c, LastDir(tm, c)))

InLang(tm, shape, T, c) ==
  LET d == LastDir(tm, c)
      e == T[<<c.q, d>>]
  IN /\ e.in
     /\ InSide(shape, e.sd[1], Word(c, d, L))
     /\ InSide(shape, e.sd[2], Word(c, d, R))

------------------------------------------------------------------------------
(* Closed position sets: windows of w cells, half tapes described by which    *)
(* block of b cells can follow which block.                                   *)

Zeros(k) == [j \in 1..k |-> 0]

\* Run inside the window (position p, 1-based) until it is left.
RECURSIVE InWindow(_, _, _, _, _)
InWindow(tm, q, win, p, fuel) ==
  IF p < 1 \/ p > Len(win) THEN [out |-> "left", q |-> q, win |-> win, d |-> IF p < 1 THEN L ELSE R]
  ELSE IF fuel = 0 THEN [out |-> "loop", q |-> q, win |-> win, d |-> L]
  ELSE LET t == Behaviour(Cell(tm, q, win[p])) IN
       IF t[3] = HALT THEN [out |-> "halt", q |-> HALT, win |-> win, d |-> L]
       ELSE InWindow(tm, t[3], [win EXCEPT ![p] = t[1]], p + (IF t[2] = R THEN 1 ELSE -1), fuel - 1)

\* i-th block from the end of the window in direction d (i = 0: outermost).
BlockAt(win, b, d, i) ==
  IF d = L THEN SubSeq(win, i * b + 1, (i + 1) * b)
  ELSE SubSeq(win, Len(win) - (i + 1) * b + 1, Len(win) - i * b)

StartPos(d, b, w) == IF d = L THEN b ELSE w - b + 1
WindowFuel(tm, w) == NumStates(tm) * w * (NumSymbols(tm) ^ w) + 1

CPSStep(tm, b, w, X) ==
  LET run(cf) == InWindow(tm, cf.q, cf.win, StartPos(cf.d, b, w), WindowFuel(tm, w))
      goes == {cf \in X.cfgs : run(cf).out = "left"}
      edges(cf) ==
        LET r == run(cf)
            back == Other(r.d)
            far == BlockAt(r.win, b, back, 0)
        IN {<<back, BlockAt(r.win, b, back, 1), far>>}
           \cup {<<back, far, e[3]>> : e \in {y \in X.edges : y[1] = back /\ y[2] = BlockAt(cf.win, b, back, 0)}}
      next(cf) ==
        LET r == run(cf)
            fronts == {e[3] : e \in {y \in X.edges : y[1] = r.d /\ y[2] = BlockAt(cf.win, b, r.d, 0)}}
        IN {[q |-> r.q, d |-> r.d,
             win |-> IF r.d = L THEN f \o SubSeq(r.win, 1, w - b) ELSE SubSeq(r.win, b + 1, w) \o f] : f \in fronts}
  IN [halt |-> \E cf \in X.cfgs : run(cf).out = "halt",
      cfgs |-> X.cfgs \cup UNION {next(cf) : cf \in goes},
      edges |-> X.edges \cup UNION {edges(cf) : cf \in goes}]

RECURSIVE CPSClosure(_, _, _, _, _)
CPSClosure(tm, b, w, X, maxConfigs) ==
  LET Y == CPSStep(tm, b, w, X) IN
  IF Y.halt \/ Cardinality(Y.cfgs) > maxConfigs THEN FALSE
  ELSE IF Y = X THEN TRUE ELSE CPSClosure(tm, b, w, Y, maxConfigs)

PositionSet(tm, b, w, maxConfigs) ==
  CPSClosure(tm, b, w, [halt |-> FALSE,
                        cfgs |-> {[q |-> 0, d |-> R, win |-> Zeros(w)]},
                        edges |-> {<<d, Zeros(b), Zeros(b)>> : d \in {L, R}}], maxConfigs)

------------------------------------------------------------------------------
(* Reverse engineering: the machine cannot come to a halting cell <<q, s>>     *)
(* because q is never entered, s is never written, or q is only entered and s  *)
(* only written while moving in the same direction.                            *)
RunCells(tm) == (States(tm) \X Symbols(tm)) \ HaltCells(tm)
Into(tm, q) == {x \in RunCells(tm) : Cell(tm, x[1], x[2])[3] = q}
Writing(tm, s) == {x \in RunCells(tm) : Cell(tm, x[1], x[2])[1] = s}
DirsOf(tm, X) == {Cell(tm, x[1], x[2])[2] : x \in X}

Unreachable(tm, h) ==
  \/ Into(tm, h[1]) = {} /\ h # <<0, 0>>
  \/ h[2] # 0 /\ Writing(tm, h[2]) = {}
  \/ h[2] # 0 /\ Cardinality(DirsOf(tm, Into(tm, h[1])) \cup DirsOf(tm, Writing(tm, h[2]))) = 1

ReverseEngineer(tm) == \A h \in HaltCells(tm) : Unreachable(tm, h)

------------------------------------------------------------------------------
(* Backtracking: partial configurations (known cells around the head, nearest  *)
(* first) from which a halting cell is reached.                                *)
Possible(tm, s, x) == s = 0 \/ Other(x) \in DirsOf(tm, Writing(tm, s))

Before(tm, pc) ==
  UNION {LET cell == Cell(tm, a[1], a[2])
             d == cell[2]
             o == Other(d)
             sides == <<pc.l, pc.r>>
             at == sides[o + 1]
             newO == IF at = <<>> THEN <<>> ELSE Tail(at)
             newD == <<pc.s>> \o sides[d + 1]
         IN IF at # <<>> /\ at[1] # cell[1] THEN {}
            ELSE {[q |-> a[1], s |-> a[2], l |-> IF d = L THEN newD ELSE newO, r |-> IF d = R THEN newD ELSE newO]}
         : a \in Into(tm, pc.q)}

IsInit(pc) == pc.q = 0 /\ pc.s = 0 /\ (\A j \in 1..Len(pc.l) : pc.l[j] = 0) /\ (\A j \in 1..Len(pc.r) : pc.r[j] = 0)
CanBe(tm, pc) == (\A j \in 1..Len(pc.l) : Possible(tm, pc.l[j], L)) /\ (\A j \in 1..Len(pc.r) : Possible(tm, pc.r[j], R))

RECURSIVE NoWayBack(_, _, _)
NoWayBack(tm, X, n) ==
  IF X = {} THEN TRUE
  ELSE IF n = 0 THEN FALSE
  ELSE LET Y == UNION {Before(tm, pc) : pc \in X} IN
       IF \E pc \in Y : IsInit(pc) THEN FALSE
       ELSE NoWayBack(tm, {pc \in Y : CanBe(tm, pc)}, n - 1)

Backtrack(tm, n) ==
  \A h \in HaltCells(tm) :
    h # <<0, 0>> /\ NoWayBack(tm, {[q |-> h[1], s |-> h[2], l |-> <<>>, r |-> <<>>]}, n)
==============================================================================

---------------------------- MODULE EnumComplete ----------------------------
(***************************************************************************)
(* Completeness of the tree: every machine of the size (one out of STRIDE), *)
(* with any undefined cells, is followed down the tree.  Each cell its run  *)
(* needs is renamed (states and symbols in order of first use, mirrored if  *)
(* the first move goes left); the renamed cell must be among the children.  *)
(***************************************************************************)
EXTENDS Enumeration, IOUtils

S == atoi(IOEnv.STATES)
Y == atoi(IOEnv.SYMBOLS)
LIMIT == atoi(IOEnv.LIMIT)
STRIDE == atoi(IOEnv.STRIDE)
PHASE == atoi(IOEnv.PHASE)

NCell == 2 * S * Y + 1
CellOf(x) == IF x = 0 THEN Undef
             ELSE LET y == x - 1 IN <<y % Y, (y \div Y) % 2, y \div (2 * Y)>>
Machine(n) == [q \in 1..S |-> [s \in 1..Y |-> CellOf((n \div (NCell ^ ((q - 1) * Y + (s - 1)))) % NCell)]]
NumMachines == NCell ^ (S * Y)

VARIABLES code, node, qs, ss, mirror, status
vars == <<code, node, qs, ss, mirror, status>>

\* qs[j] is the machine's name of the tree's state j-1, ss likewise for symbols.
IndexIn(x, seq) == IF \E j \in 1..Len(seq) : seq[j] = x THEN CHOOSE j \in 1..Len(seq) : seq[j] = x ELSE 0
NameIn(x, seq) == IF IndexIn(x, seq) = 0 THEN Len(seq) ELSE IndexIn(x, seq) - 1
Extend(x, seq) == IF IndexIn(x, seq) = 0 THEN Append(seq, x) ELSE seq

Init == /\ code \in {n \in 0..(NumMachines - 1) : n % STRIDE = PHASE % STRIDE}
        /\ node = BlankTM(S, Y) /\ qs = <<0>> /\ ss = <<0>> /\ mirror = -1 /\ status = "walk"

Next ==
  /\ status = "walk"
  /\ LET e == Run(node, Blank, LIMIT)
         cell == Machine(code)[qs[e.lq + 1] + 1][ss[e.ls + 1] + 1]
         m == IF mirror = -1 THEN (IF cell[2] = L THEN 1 ELSE 0) ELSE mirror
         d == IF m = 1 THEN 1 - cell[2] ELSE cell[2]
         new == <<NameIn(cell[1], ss), d, NameIn(cell[3], qs)>>
         ch == [node EXCEPT ![e.lq + 1][e.ls + 1] = new]
     IN IF ~Halted(e) THEN status' = "infinite" /\ UNCHANGED <<node, qs, ss, mirror>>
        ELSE IF IsUndef(cell) THEN status' = "halts" /\ UNCHANGED <<node, qs, ss, mirror>>
        ELSE /\ status' = IF ch \in Children(node, e.lq, e.ls, TRUE) THEN "walk" ELSE "not-in-tree"
             /\ node' = ch /\ qs' = Extend(cell[3], qs) /\ ss' = Extend(cell[1], ss) /\ mirror' = m
  /\ UNCHANGED code
Spec == Init /\ [][Next]_vars
Complete == status # "not-in-tree"
==============================================================================

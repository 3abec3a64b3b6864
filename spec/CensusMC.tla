------------------------------ MODULE CensusMC ------------------------------
(***************************************************************************)
(* Conservation: what a node stands for is what its halting completion and  *)
(* its children stand for.  With the root this gives the size of the space. *)
(***************************************************************************)
EXTENDS Census, IOUtils
CONSTANTS LIMIT, DEPTH
P == 9973
Sizes == {<<2, 2>>, <<3, 2>>, <<2, 3>>, <<4, 2>>, <<2, 4>>, <<3, 3>>, <<5, 2>>, <<4, 3>>}
VARIABLES node
Init == \E z \in Sizes : node = First1RB(z[1], z[2])
At(n) == Run(n, Blank, LIMIT)
Next == LET e == At(node) IN
        /\ Halted(e) /\ ~HasHalt(node) /\ Cardinality(DefinedCells(node)) < DEPTH
        /\ \E c \in Children(node, e.lq, e.ls, TRUE) : node' = c
Spec == Init /\ [][Next]_node
RECURSIVE SumOf(_, _)
SumOf(X, allow) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN (StandsFor(x, allow, P) + SumOf(X \ {x}, allow)) % P
Conserved ==
  LET e == At(node) IN
  Halted(e) => \A allow \in {TRUE, FALSE} :
    StandsFor(node, allow, P)
    = (StandsFor([node EXCEPT ![e.lq + 1][e.ls + 1] = Halt1RZ], allow, P) + SumOf(Children(node, e.lq, e.ls, TRUE), allow)) % P
RootIsSpace == \A z \in Sizes : \A allow \in {TRUE, FALSE} :
                 node = First1RB(z[1], z[2]) => StandsFor(node, allow, P) = SpaceSize(z[1], z[2], allow, P)

\* For 2x2 the machines a node stands for are counted one by one.
Full22 == {<<a, b, c>> \in (({0, 1} \X {L, R} \X {0, 1}) \cup {Halt1RZ}) \X (({0, 1} \X {L, R} \X {0, 1}) \cup {Halt1RZ})
                            \X (({0, 1} \X {L, R} \X {0, 1}) \cup {Halt1RZ}) : TRUE}
Tab(x) == << << <<1, R, 1>>, x[1] >>, <<x[2], x[3]>> >>
NumHalts(t) == Cardinality({x \in CellsOf(t) : IsHalt(t[x[1]][x[2]])})
Extends(t, n) == \A x \in DefinedCells(n) : t[x[1]][x[2]] = n[x[1]][x[2]]
Counted22 == Len(node) = 2 /\ Len(node[1]) = 2 =>
  /\ StandsFor(node, FALSE, P) = Cardinality({x \in Full22 : NumHalts(Tab(x)) = 1 /\ Extends(Tab(x), node)})
  /\ StandsFor(node, TRUE, P) = Cardinality({x \in Full22 : NumHalts(Tab(x)) <= 1 /\ Extends(Tab(x), node)})
==============================================================================

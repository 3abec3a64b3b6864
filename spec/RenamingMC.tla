----------------------------- MODULE RenamingMC -----------------------------
(***************************************************************************)
(* Renamed machines do the same things: all machines made of a few kinds of *)
(* cells, under all renamings and from all start states, step by step.      *)
(***************************************************************************)
EXTENDS Renaming
CONSTANT Steps
Cells == {<<0,0,0>>, <<1,1,1>>, <<0,1,1>>, <<1,0,0>>, <<1,1,-1>>, <<-1,-1,-1>>}
VARIABLES m, p, q, swap, a, c, d
vars == <<m, p, q, swap, a, c, d>>
M2 == Rename(m, p, q, swap)
Init == /\ m \in [1..2 -> [1..2 -> Cells]]
        /\ p \in Perms(2) /\ q \in Perms(2) /\ swap \in 0..1 /\ a \in 0..1
        /\ c = Begin(a, 0) /\ d = Begin(p[a], q[0])
Next == /\ ~Stopped(c) /\ c.n < Steps
        /\ c' = Go(m, c, 0) /\ d' = Go(M2, d, q[0])
        /\ UNCHANGED <<m, p, q, swap, a>>
Spec == Init /\ [][Next]_vars
TableOK == c.n = 0 => Renamed(m, a, 0, M2, p[a], q[0])
SameTime == Stopped(c) = Stopped(d) /\ c.n = d.n
StepsOK == ~Stopped(c) => Corresponds(c, 0, d, q[0], p, q, swap)
MarksOK == ~Stopped(c) => Marks(c, 0) = Marks(d, q[0])
\* The normal form is unique and reached: the least table among the renamings is Lexical,
\* and two renamings of one machine have the same least table.
LexOK == c.n = 0 /\ a = 0 => (Lexical(m) /\ Lexical(M2) => [i \in 1..2 |-> [s \in 1..2 |-> CellKey(m[i][s])]]
                                                     = [i \in 1..2 |-> [s \in 1..2 |-> CellKey(M2[i][s])]])
==============================================================================

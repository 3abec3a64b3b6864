---------------------------- MODULE ParallelEnum ----------------------------
(***************************************************************************)
(* An enumeration carried out by several processes: a first run with a      *)
(* small step limit, its unfinished machines shuffled and dealt out, each   *)
(* heap continued with a larger limit by a process of its own - some of     *)
(* which may die - and everything put together in the end                   *)
(* (cpp/scripts/l[rb]_enum_local_parallel.sh).                              *)
(*                                                                          *)
(* The tree is abstract: node 1 is its root, up[n] the parent of n, and     *)
(* node n stops after cost[n] steps; its children are the machines that     *)
(* define the cell at which it stopped, so they run for longer.  A node     *)
(* that stops within the limit is decided and its children are looked at;   *)
(* a node that does not is left over.  TLC takes all trees of the size.     *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS N, MaxCost, Parts, Careless
Nodes == 1..N
VARIABLES up, cost, lim, phase, first, left, heap, out, ended, final
vars == <<up, cost, lim, phase, first, left, heap, out, ended, final>>

RECURSIVE Below(_, _, _, _)
\* The nodes looked at below (and with) the nodes in R, with step limit L.
Below(R, L, p, c) == IF R = {} THEN {}
  ELSE R \cup Below({n \in Nodes \ {1} : p[n] \in R /\ c[p[n]] <= L}, L, p, c)
Seen(R, L) == Below(R, L, up, cost)
Decided(R, L) == {n \in Seen(R, L) : cost[n] <= L}
Left(R, L) == {n \in Seen(R, L) : cost[n] > L}

Init ==
  /\ up \in {f \in [Nodes -> 0..(N - 1)] : f[1] = 0 /\ \A n \in 2..N : f[n] \in 1..(n - 1)}
  /\ cost \in {f \in [Nodes -> 1..MaxCost] : \A n \in 2..N : f[n] > f[up[n]]}
  /\ lim \in {l \in (0..MaxCost) \X (0..MaxCost) : l[1] < l[2]}
  /\ phase = "start" /\ first = {} /\ left = {} /\ heap = <<>> /\ out = <<>> /\ ended = <<>> /\ final = [dec |-> {}, unk |-> {}]
Start ==
  /\ phase = "start" /\ phase' = "split"
  /\ first' = Decided({1}, lim[1]) /\ left' = Left({1}, lim[1])
  /\ UNCHANGED <<up, cost, lim, heap, out, ended, final>>
Deal ==
  /\ phase = "split" /\ phase' = "run"
  /\ \E f \in [left -> 1..Parts] : heap' = [k \in 1..Parts |-> {n \in left : f[n] = k}]
  /\ out' = [k \in 1..Parts |-> [dec |-> {}, unk |-> {}]] /\ ended' = [k \in 1..Parts |-> "no"]
  /\ UNCHANGED <<up, cost, lim, first, left, final>>
Part(k) ==
  /\ phase = "run" /\ ended[k] = "no"
  /\ \/ /\ out' = [out EXCEPT ![k] = [dec |-> Decided(heap[k], lim[2]), unk |-> Left(heap[k], lim[2])]]
        /\ ended' = [ended EXCEPT ![k] = "well"]
     \/ \E D \in SUBSET Decided(heap[k], lim[2]) :
          /\ out' = [out EXCEPT ![k] = [dec |-> D, unk |-> {}]]
          /\ ended' = [ended EXCEPT ![k] = "badly"]
  /\ UNCHANGED <<up, cost, lim, phase, first, left, heap, final>>
Merge ==
  /\ phase = "run" /\ \A k \in 1..Parts : ended[k] # "no"
  /\ IF Careless \/ \A k \in 1..Parts : ended[k] = "well"
     THEN /\ phase' = "finished"
          /\ final' = [dec |-> first \cup UNION {out[k].dec : k \in 1..Parts}, unk |-> UNION {out[k].unk : k \in 1..Parts}]
     ELSE phase' = "failed" /\ UNCHANGED final
  /\ UNCHANGED <<up, cost, lim, first, left, heap, out, ended>>
Next == Start \/ Deal \/ (\E k \in 1..Parts : Part(k)) \/ Merge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* What is finished is what one process would have written.
Whole == phase = "finished" => final.dec = Decided({1}, lim[2]) /\ final.unk = Left({1}, lim[2])
\* Nothing is written by two processes (or again by one of them).
Apart == phase \in {"run", "finished", "failed"} =>
  \A k \in 1..Parts : /\ out[k].dec \cap (first \cup UNION {out[j].dec : j \in 1..Parts \ {k}}) = {}
                      /\ out[k].unk \cap UNION {out[j].unk : j \in 1..Parts \ {k}} = {}
Ends == <>(phase \in {"finished", "failed"})
=============================================================================

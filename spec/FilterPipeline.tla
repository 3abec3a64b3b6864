-------------------------- MODULE FilterPipeline --------------------------
(***************************************************************************)
(* The long campaigns: filter after filter runs over the machines nobody    *)
(* has decided yet (Tools/filter.sh), or over shards of them on a cluster   *)
(* (sbatch_filter_setup / _array / _finish), where single shards fail and   *)
(* are run again.  After each round the results lie in one file per class   *)
(* and the undecided machines are the input of the next round.              *)
(*                                                                          *)
(* hold    the undecided machines: the input of the next round              *)
(* done    <<machine, class>> of the machines decided in finished rounds,   *)
(*         as written to the class files of those rounds                    *)
(* shards  the shards of the round under way: [in, out, ok]                 *)
(*                                                                          *)
(* A filter is a function from machines to classes; what it says is the     *)
(* subject of other modules.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt

Classes == {"unknown", "halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite"}

\* ------------------------------------------------- operators (also used on recorded rounds)
Names(out) == [j \in 1..Len(out) |-> out[j][1]]
OfClass(out, cl) == SelectSeq(out, LAMBDA r : r[2] = cl)
Decided(out) == SelectSeq(out, LAMBDA r : r[2] # "unknown")
Holdouts(out) == Names(OfClass(out, "unknown"))
Times(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
\* The same things equally often; the order in which machines are worked on is nobody's concern.
Same(a, b) == Len(a) = Len(b) /\ \A x \in ToSet(a) : Times(a, x) = Times(b, x)
\* A filter gives every machine of its input one verdict.
Filters(in, out) == Same(Names(out), in) /\ \A j \in 1..Len(out) : out[j][2] \in Classes
\* Files per class hold what the filter said, each record once.
Sorted(out, files) == \A cl \in Classes : Same(files[cl], OfClass(out, cl))
Shares(in, parts) == Same(FlattenSeq(parts), in)
\* Nothing is lost, nothing is invented, nothing is decided twice.
Accounted(all, hold, done) ==
  /\ Len(all) = Len(hold) + Len(done)
  /\ \A x \in ToSet(all) : Times(all, x) = Times(hold, x) + Times(Names(done), x)
  /\ \A j \in 1..Len(done) : done[j][2] # "unknown"

\* ---------------------------------------------------------------------- the state machine
CONSTANTS Machines, MaxRounds, MaxShards, Cls, Careless
VARIABLES hold, done, shards, round
vars == <<hold, done, shards, round>>
All == SetToSeq(Machines)
Init == hold = All /\ done = <<>> /\ shards = <<>> /\ round = 0

Verdicts(in) == {[j \in 1..Len(in) |-> <<in[j], f[in[j]]>>] : f \in [ToSet(in) -> Cls]}
\* One process: the whole filter succeeds or it changes nothing.
Whole ==
  /\ shards = <<>> /\ round < MaxRounds
  /\ \E out \in Verdicts(hold) : hold' = Holdouts(out) /\ done' = done \o Decided(out)
  /\ round' = round + 1 /\ UNCHANGED shards
Cuts(in, n) == {c \in [1..(n + 1) -> 0..Len(in)] : c[1] = 0 /\ c[n + 1] = Len(in) /\ \A j \in 1..n : c[j] <= c[j + 1]}
Setup ==
  /\ shards = <<>> /\ round < MaxRounds
  /\ \E n \in 1..MaxShards : \E c \in Cuts(hold, n) :
       shards' = [j \in 1..n |-> [in |-> SubSeq(hold, c[j] + 1, c[j + 1]), out |-> <<>>, ok |-> FALSE]]
  /\ UNCHANGED <<hold, done, round>>
\* A shard may fail half way: part of its results is there but not its mark.  It may be run again
\* at any time, also after a success.
Run(k) == \E out \in Verdicts(shards[k].in) :
  /\ \/ shards' = [shards EXCEPT ![k] = [in |-> @.in, out |-> out, ok |-> TRUE]]
     \/ \E n \in 0..Len(out) : shards' = [shards EXCEPT ![k] = [in |-> @.in, out |-> SubSeq(out, 1, n), ok |-> FALSE]]
  /\ UNCHANGED <<hold, done, round>>
Finish ==
  /\ shards # <<>> /\ (Careless \/ \A k \in 1..Len(shards) : shards[k].ok)
  /\ LET out == FlattenSeq([k \in 1..Len(shards) |-> shards[k].out])
     IN hold' = Holdouts(out) /\ done' = done \o Decided(out)
  /\ shards' = <<>> /\ round' = round + 1
Next == Whole \/ Setup \/ (\E k \in 1..Len(shards) : Run(k)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Whole) /\ WF_vars(Finish)

EverythingAccounted == Accounted(All, hold, done)
ShardsCover == shards # <<>> => /\ Shares(hold, [k \in 1..Len(shards) |-> shards[k].in])
                                /\ \A k \in 1..Len(shards) : shards[k].ok => Filters(shards[k].in, shards[k].out)
\* What has been decided stays decided.
Monotone == [][SubSeq(done', 1, Len(done)) = done]_vars
============================================================================

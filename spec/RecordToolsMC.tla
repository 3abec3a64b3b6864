--------------------------- MODULE RecordToolsMC ---------------------------
(***************************************************************************)
(* The streaming tools as one state machine: records arrive one by one from *)
(* a file that may end early; a categoriser, a sorter and a reservoir       *)
(* sampler take them.  TLC explores all arrival orders and all random       *)
(* choices.                                                                 *)
(***************************************************************************)
EXTENDS RecordTools

CONSTANTS N, SampleSize
F(d, h, q) == (IF d THEN {<<"status.halt_status.is_decided", "1">>} ELSE {})
         \cup (IF h THEN {<<"status.halt_status.is_halting", "1">>} ELSE {})
         \cup (IF q THEN {<<"status.quasihalt_status.is_quasihalting", "1">>} ELSE {})
Pool == { [m |-> "a", f |-> F(FALSE, FALSE, FALSE), steps |-> None, score |-> None, qsteps |-> None],
          [m |-> "b", f |-> F(TRUE, TRUE, FALSE), steps |-> <<999>>, score |-> <<5>>, qsteps |-> None],
          [m |-> "c", f |-> F(TRUE, TRUE, FALSE), steps |-> <<1000>>, score |-> <<0, 1>>, qsteps |-> None],
          [m |-> "d", f |-> F(TRUE, FALSE, TRUE), steps |-> None, score |-> <<5, 0>>, qsteps |-> <<0>>],
          [m |-> "e", f |-> F(TRUE, FALSE, FALSE), steps |-> None, score |-> None, qsteps |-> None] }

VARIABLES read, files, sorted, sample, picked, done
vars == <<read, files, sorted, sample, picked, done>>
Init == /\ read = <<>> /\ sorted = <<>> /\ sample = <<>> /\ picked = <<>> /\ done = FALSE
        /\ files = [c \in Range(Classes) |-> <<>>]
\* Insertion behind everything that is not smaller: stable and descending.
Insert(s, r) == LET k == Cardinality({j \in 1..Len(s) : ~NumLess(s[j].score, r.score)})
                IN SubSeq(s, 1, k) \o <<r>> \o SubSeq(s, k + 1, Len(s))
Take(r) ==
  /\ ~done /\ Len(read) < N
  /\ read' = Append(read, r)
  /\ files' = [files EXCEPT ![Class(r)] = Append(@, r)]
  /\ sorted' = Insert(sorted, r)
  /\ LET k == Len(read) + 1 IN
     IF Len(sample) < SampleSize THEN sample' = Append(sample, r) /\ picked' = Append(picked, k)
     ELSE \/ \E j \in 1..SampleSize : sample' = [sample EXCEPT ![j] = r] /\ picked' = [picked EXCEPT ![j] = k]
          \/ UNCHANGED <<sample, picked>>
  /\ UNCHANGED done
Stop == ~done /\ done' = TRUE /\ UNCHANGED <<read, files, sorted, sample, picked>>
Next == Stop \/ \E r \in Pool : Take(r)
Spec == Init /\ [][Next]_vars

Partition == Categorized(read, files)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET c == CHOOSE c \in S : TRUE IN Len(files[c]) + Total(S \ {c})
Conserved == Total(Range(Classes)) = Len(read)
SortOK == Sorted(read, sorted)
SampleOK == /\ Sampled(read, SampleSize, sample)
            /\ \A j, k \in 1..Len(picked) : j # k => picked[j] # picked[k]
            /\ \A j \in 1..Len(picked) : sample[j] = read[picked[j]]

\* Reservoir sampling is uniform.  W[S]: the number of equally likely ways (k choices for the k-th
\* record) in which the sample is the set S after k records; it is the same for every S.
Subsets(k, n) == {S \in SUBSET (1..k) : Cardinality(S) = n}
RECURSIVE Weight(_, _)
Weight(k, n) ==
  IF k = n THEN [S \in Subsets(n, n) |-> 1]
  ELSE LET W == Weight(k - 1, n) IN
       [S \in Subsets(k, n) |->
          IF k \notin S THEN (k - n) * W[S]
          ELSE LET T == {(S \ {k}) \cup {j} : j \in (1..(k - 1)) \ S}
                   RECURSIVE Sum(_)
                   Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN W[x] + Sum(X \ {x})
               IN Sum(T)]
Uniform(k, n) == LET W == Weight(k, n) IN \A S, T \in DOMAIN W : W[S] = W[T]
ASSUME \A n \in 1..3 : \A k \in n..6 : Uniform(k, n)
==============================================================================

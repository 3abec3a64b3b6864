---------------------------- MODULE FilterRounds ----------------------------
(* Campaigns carried out with the real scripts and filters, replayed event by event against
   FilterPipeline.  A case is [all, events]; what an event found on disk afterwards:
     filter  rc, want (should the filter command succeed), in, out, files, hold, text
     setup   rc, copy, parts
     shard   k, rc, want, out, files, text, mark
     finish  rc, files, hold
   hold / text / copy / parts / in: machines in order (unknown.pb, unknown.txt, in.txt, shard inputs, in.pb);
   out: records [m, v, n] (machine, kind of verdict, number of steps or -1); files: class -> records;
   missing or unreadable files are given as the machine "?".
     venn    rc, left, right, inter, lonly, ronly: two lists of machines compared *)
EXTENDS FilterPipeline, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, at, told
rvars == <<i, at, told, vars>>

Class(r) == CASE r.v = "unknown" -> "unknown"
              [] r.v = "infinite" -> "infinite"
              [] OTHER -> r.v \o (IF r.n < 0 THEN ".unk" ELSE IF r.n < 1000 THEN ".small" ELSE ".large")
Recs(s) == [j \in 1..Len(s) |-> <<s[j].m, Class(s[j])>>]
E0 == Cases[i].events[at]
\* The event with its records classified.
E == [x \in DOMAIN E0 |-> IF x = "out" THEN Recs(E0.out)
                          ELSE IF x = "files" THEN [cl \in DOMAIN E0.files |-> Recs(E0.files[cl])]
                          ELSE E0[x]]
RInit == /\ i \in 1..Len(Cases) /\ at = 1 /\ told = ""
         /\ hold = Cases[i].all /\ done = <<>> /\ shards = <<>> /\ round = 0
Tell(v) == told' = v /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o v \o "|" \o ToString(at))
Wrong(v) == Tell(v) /\ UNCHANGED <<i, at, vars>>
Step == at' = at + 1 /\ UNCHANGED <<i, told>>

FilterBad ==
  IF E.want = 0 THEN (IF E.rc = 0 THEN "failure-not-reported"
                      ELSE IF ~Same(E.hold, hold) \/ ~Same(E.text, E.before) THEN "failed-round-changed-holdouts" ELSE "ok")
  ELSE IF E.rc # 0 THEN "round-failed"
  ELSE IF ~Same(E.in, hold) THEN "wrong-input"
  ELSE IF ~Filters(hold, E.out) THEN "machines-lost-by-filter"
  ELSE IF ~Sorted(E.out, E.files) THEN "wrong-class-files"
  ELSE IF ~Same(E.hold, Holdouts(E.out)) THEN "wrong-holdouts"
  ELSE IF ~Same(E.text, Holdouts(E.out)) THEN "holdouts-text-not-current"
  ELSE "ok"
DoFilter == /\ E.k = "filter"
            /\ IF FilterBad # "ok" THEN Wrong(FilterBad)
               ELSE /\ hold' = E.hold
                    /\ done' = IF E.want = 1 THEN done \o Decided(E.out) ELSE done
                    /\ round' = round + E.want /\ UNCHANGED shards /\ Step
SetupBad == IF E.rc # 0 THEN "setup-failed"
            ELSE IF Len(E.parts) # E.n THEN "number-of-shards"
            ELSE IF ~Shares(hold, E.parts) THEN "shards-do-not-cover"
            ELSE IF ~Same(E.copy, hold) THEN "input-not-kept" ELSE "ok"
DoSetup == /\ E.k = "setup"
           /\ IF SetupBad # "ok" THEN Wrong(SetupBad)
              ELSE /\ shards' = [j \in 1..E.n |-> [in |-> E.parts[j], out |-> <<>>, ok |-> FALSE]]
                   /\ UNCHANGED <<hold, done, round>> /\ Step
ShardBad == LET s == shards[E.shard] IN
            IF E.want = 0 THEN (IF E.rc = 0 \/ E.mark = 1 THEN "failed-shard-marked" ELSE "ok")
            ELSE IF E.rc # 0 \/ E.mark = 0 THEN "shard-failed"
            ELSE IF ~Filters(s.in, E.out) THEN "machines-lost-by-filter"
            ELSE IF ~Sorted(E.out, E.files) THEN "wrong-class-files"
            ELSE IF ~Same(E.text, Holdouts(E.out)) THEN "wrong-holdouts" ELSE "ok"
DoShard == /\ E.k = "shard"
           /\ IF ShardBad # "ok" THEN Wrong(ShardBad)
              ELSE /\ shards' = [shards EXCEPT ![E.shard] = [in |-> @.in, out |-> IF E.want = 1 THEN E.out ELSE <<>>, ok |-> E.want = 1]]
                   /\ UNCHANGED <<hold, done, round>> /\ Step
Ready == \A k \in 1..Len(shards) : shards[k].ok
ROut == FlattenSeq([k \in 1..Len(shards) |-> shards[k].out])
FinishBad == IF ~Ready THEN (IF E.rc = 0 THEN "finished-without-all-shards"
                             ELSE IF ~Same(E.hold, hold) THEN "failed-round-changed-holdouts" ELSE "ok")
             ELSE IF E.rc # 0 THEN "finish-failed"
             ELSE IF ~Same(E.hold, Holdouts(ROut)) THEN "wrong-holdouts"
             ELSE IF ~Sorted(ROut, E.files) THEN "wrong-class-files" ELSE "ok"
DoFinish == /\ E.k = "finish"
            /\ IF FinishBad # "ok" THEN Wrong(FinishBad)
               ELSE IF Ready THEN hold' = E.hold /\ done' = done \o Decided(ROut) /\ shards' = <<>> /\ round' = round + 1 /\ Step
               ELSE UNCHANGED vars /\ Step
VennBad == LET L == ToSet(E.left)  R == ToSet(E.right) IN
           IF E.rc # 0 THEN "comparison-failed"
           ELSE IF ToSet(E.inter) # L \cap R THEN "wrong-common-lines"
           ELSE IF ToSet(E.lonly) # L \ R THEN "wrong-left-only"
           ELSE IF ToSet(E.ronly) # R \ L THEN "wrong-right-only" ELSE "ok"
DoVenn == /\ E.k = "venn"
          /\ IF VennBad # "ok" THEN Wrong(VennBad) ELSE UNCHANGED vars /\ Step
End == /\ at > Len(Cases[i].events)
       /\ Wrong(IF Accounted(Cases[i].all, hold, done) THEN "ok" ELSE "not-accounted-for")
RNext == told = "" /\ IF at > Len(Cases[i].events) THEN End ELSE DoFilter \/ DoSetup \/ DoShard \/ DoFinish \/ DoVenn
RSpec == RInit /\ [][RNext]_rvars
=============================================================================

-------------------------- MODULE RecordToolCases --------------------------
(* What real runs of the record tools read, wrote and printed, judged by RecordTools. *)
EXTENDS RecordTools, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
vars == <<i, out>>

\* Records as written by the harness: fields are a list.
Rec(x) == [m |-> x.m, f |-> Range(x.f), steps |-> x.steps, score |-> x.score, qsteps |-> x.qsteps, tm |-> x.tm]
Recs(s) == [j \in 1..Len(s) |-> Rec(s[j])]
\* Equal numbers may be stored in different ways; the fields carry the numbers too.
Files(c) == [k \in 1..Len(c.ins) |-> Recs(c.ins[k])]
All(c) == FlattenSeq(Files(c))

Categorize(c) ==
  LET in == All(c)  outs == [cl \in Range(Classes) |-> Recs(c.out[cl])] IN
  IF ~Categorized(in, outs) THEN "wrong-file-or-record"
  ELSE IF \E cl \in Range(Classes) : c.counts[cl] # Len(outs[cl]) THEN "wrong-count"
  ELSE IF c.total # Len(in) THEN "wrong-total"
  ELSE "ok"
Convert(c) == IF Recs(c.out) # All(c) THEN "sequence-changed"
              ELSE IF c.total # Len(c.out) THEN "wrong-count" ELSE "ok"
SortV(c) == IF ~IsPermutation(All(c), Recs(c.out)) THEN "records-lost-or-changed"
            ELSE IF ~Descending(Recs(c.out)) THEN "not-sorted" ELSE "ok"
Sample(c) == IF ~Among(Recs(c.out), All(c)) THEN "not-records-of-the-input"
             ELSE IF ~Sampled(All(c), c.n, Recs(c.out)) THEN "wrong-size"
             ELSE IF c.total # Len(All(c)) THEN "wrong-count" ELSE "ok"
\* hits[k]: how often record k was in the sample in c.runs runs (k \in 1..c.of, c.n per sample).
\* The expected number is runs*n/of; six standard deviations are allowed.
Freq(c) == LET V == c.runs * c.n * (c.of - c.n) IN      \* variance * of^2
           IF \E k \in 1..c.of : LET d == c.hits[k] * c.of - c.runs * c.n IN d * d > 36 * V
           THEN "not-uniform" ELSE "ok"
CountV(c) == IF c.each # [k \in 1..Len(c.ins) |-> Len(c.ins[k])] THEN "wrong-file-count"
             ELSE IF c.total # Len(All(c)) THEN "wrong-total" ELSE "ok"
\* The first record with the machine, in file order; none if there is none.
Find(c) == LET in == All(c)  at == {j \in 1..Len(in) : in[j].tm = c.tm} IN
           IF at = {} THEN (IF c.out # <<>> THEN "found-something-else" ELSE "ok")
           ELSE LET j == CHOOSE j \in at : \A k \in at : j <= k IN
                IF Len(c.out) # 1 THEN "not-found"
                ELSE IF Rec(c.out[1]) # in[j] THEN "wrong-record"
                ELSE IF c.num >= 0 /\ c.num # j - 1 THEN "wrong-number" ELSE "ok"
At(c) == LET in == All(c) IN       \* record number c.num
         IF c.num < Len(in) THEN (IF Len(c.out) = 1 /\ Rec(c.out[1]) = in[c.num + 1] THEN "ok" ELSE "wrong-record")
         ELSE IF c.out # <<>> THEN "wrong-record" ELSE "ok"
FilterV(c) ==
  LET in == All(c)  o == Recs(c.out) IN
  IF Len(in) # Len(o) THEN "records-lost"
  ELSE LET bad == {j \in 1..Len(in) : ~Filtered(in[j], o[j], c.own, c.reason, c.success[j] = 1, c.fresh = 1)} IN
       IF bad = {}
       \* What it decides is what one of the settings asked for decides; the setting recorded is one that does.
       THEN IF \E j \in 1..Len(in) : c.some[j] >= 0 /\ c.some[j] # c.success[j] THEN "decides-other-than-asked"
            ELSE IF \E j \in 1..Len(in) : c.success[j] = 1 /\ c.again[j] = 0 THEN "recorded-setting-does-not-decide"
            ELSE "ok"
       ELSE LET j == CHOOSE j \in bad : \A k \in bad : j <= k IN
            IF in[j].m # o[j].m THEN "machine-changed"
            ELSE IF Rest(in[j], c.own) # Rest(o[j], c.own) /\ c.fresh = 0 THEN "other-results-changed"
            ELSE "verdict-changed-" \o ToString(j)
Zero(c) ==
  LET in == All(c) IN
  IF Recs(c.yes) # SelectSeq(in, LAMBDA r : ZeroReflexive(r.tm)) THEN "zero-reflexive"
  ELSE IF Recs(c.no) # SelectSeq(in, LAMBDA r : ~ZeroReflexive(r.tm)) THEN "not-zero-reflexive"
  ELSE IF c.nyes # Len(c.yes) \/ c.total # Len(in) THEN "wrong-count" ELSE "ok"
\* Statistics: how many records, by verdict, by reason and by filter that left results.
HasSection(r, sec) == \E x \in r.f : Under(x[1], sec)
MaxNum(s) == IF s = <<>> THEN None ELSE LET S == {s[j] : j \in 1..Len(s)} IN CHOOSE x \in S : \A y \in S : ~NumLess(x, y)
Stats(c) ==
  LET in == All(c)
      halts == SelectSeq(in, LAMBDA r : Decided(r) /\ Halting(r))
      infs == SelectSeq(in, LAMBDA r : Decided(r) /\ ~Halting(r))
      qs == SelectSeq(in, QHalting)
      NR(why) == Len(SelectSeq(infs, LAMBDA r : Val(r, "status.halt_status.inf_reason") = why))
  IN IF c.total # Len(in) THEN "total"
     ELSE IF c.unknown # Len(SelectSeq(in, LAMBDA r : ~Decided(r))) THEN "unknown"
     ELSE IF c.halt # Len(halts) THEN "halt"
     ELSE IF c.inf # Len(infs) THEN "infinite"
     ELSE IF c.qhalt # Len(qs) THEN "quasihalt"
     ELSE IF \E j \in 1..Len(c.reasons) : c.reasons[j][2] # NR(c.reasons[j][1]) THEN "reasons"
     ELSE "ok"

Verdict(c) == CASE c.k = "categorize" -> Categorize(c)
                [] c.k = "convert" -> Convert(c)
                [] c.k = "sort" -> SortV(c)
                [] c.k = "sample" -> Sample(c)
                [] c.k = "freq" -> Freq(c)
                [] c.k = "count" -> CountV(c)
                [] c.k = "find" -> Find(c)
                [] c.k = "at" -> At(c)
                [] c.k = "filter" -> FilterV(c)
                [] c.k = "zero" -> Zero(c)
                [] c.k = "stats" -> Stats(c)

Init == i \in 1..Len(Cases) /\ out = "no"
Next == /\ out = "no"
        /\ out' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o out')
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
==============================================================================

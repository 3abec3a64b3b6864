---------------------------- MODULE RecordCases ----------------------------
(***************************************************************************)
(* The stored forms of a machine and what real writers and readers did.     *)
(*                                                                          *)
(*  packed    one byte per cell, row by row: bits 0-2 symbol+1 (0: undefined*)
(*            cell), bits 3-5 next state+1, bit 6 direction, bit 7 first    *)
(*            cell of a row; at most 7 states and 7 symbols                 *)
(*  list      number of states, symbols, then three numbers per cell        *)
(*            (symbol -1: undefined)                                        *)
(*  text      rows joined by _, cells 1RB, Z halts, --- undefined           *)
(*  morphett  one line "state symbol symbol' l/r state'" per defined cell,  *)
(*            halting state "halt", blank symbol "_"; states and symbols    *)
(*            are names                                                     *)
(*  bbc       5x2 only: three bytes per cell: symbol, 0 right / 1 left,     *)
(*            next state+1 (0: halt, 0 with symbol 0: undefined)            *)
(* The spec's encoders/decoders below are applied to what was recorded.     *)
(***************************************************************************)
EXTENDS Enumeration, TLC, Json, IOUtils

RF == INSTANCE RecordFile WITH Payloads <- {}, Hdr <- 4, MaxRecs <- 0, written <- <<>>,
        disk <- <<>>, up <- FALSE, pos <- 0, got <- <<>>, how <- "no"

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES i, out
vars == <<i, out>>

\* -------------------------------------------------------------- encodings
PackCell(c, first) ==
  (IF IsUndef(c) THEN 0 ELSE c[1] + 1 + 8 * (c[3] + 1) + 64 * c[2]) + (IF first THEN 128 ELSE 0)
Pack(tm) == FlattenSeq([q \in 1..Len(tm) |-> [s \in 1..Len(tm[q]) |-> PackCell(tm[q][s], s = 1)]])
UnpackCell(b) ==
  LET sym == b % 8 IN
  IF sym = 0 THEN <<-1, -1, -1>>
  ELSE <<sym - 1, (b \div 64) % 2, ((b \div 8) % 8) - 1>>
\* Any sequence of bytes whose rows have equal length is a machine.
RowStarts(bs) == SelectSeq([j \in 1..Len(bs) |-> j], LAMBDA j : bs[j] >= 128)
Unpack(bs) ==
  LET st == RowStarts(bs) IN
  [q \in 1..Len(st) |-> LET e == IF q = Len(st) THEN Len(bs) ELSE st[q + 1] - 1
                        IN [s \in 1..(e - st[q] + 1) |-> UnpackCell(bs[st[q] + s - 1])]]

ListForm(tm) == FlattenSeq([q \in 1..Len(tm) |-> FlattenSeq([s \in 1..Len(tm[q]) |->
                   IF IsUndef(tm[q][s]) THEN <<-1, -1, -1>> ELSE tm[q][s]])])
\* In the list form of an undefined cell only the -1 counts.
SameList(a, b) == /\ Len(a) = Len(b)
                  /\ \A j \in 1..(Len(a) \div 3) :
                       IF a[3*j-2] = -1 THEN b[3*j-2] = -1
                       ELSE SubSeq(a, 3*j-2, 3*j) = SubSeq(b, 3*j-2, 3*j)

BbcCell(b) == IF b[3] = 0 /\ b[1] = 0 THEN <<-1, -1, -1>> ELSE <<b[1], 1 - b[2], b[3] - 1>>
FromBbc(bs) == [q \in 1..5 |-> [s \in 1..2 |-> LET o == 6 * (q - 1) + 3 * (s - 1)
                                               IN BbcCell(SubSeq(bs, o + 1, o + 3))]]

\* -------------------------------------------------------------- Morphett
\* states / symbols: the names, in order.
Name(ns, j) == ns[j + 1]
Quints(tm, states, symbols) ==
  { <<Name(states, q), Name(symbols, s), Name(symbols, Cell(tm, q, s)[1]),
      IF Cell(tm, q, s)[2] = L THEN "l" ELSE "r",
      IF Cell(tm, q, s)[3] = HALT THEN "halt" ELSE Name(states, Cell(tm, q, s)[3])>> :
    <<q, s>> \in {x \in (0..(Len(tm)-1)) \X (0..(Len(tm[1])-1)) : ~IsUndef(Cell(tm, x[1], x[2]))} }
BlankFirst(symbols) == <<"_">> \o Tail(symbols)

\* ---------------------------------------------------------------- verdicts
Machine(c) ==
  \* c.tm went in; c.after is the machine in memory after writing; c.back what was read.
  IF c.after # c.tm THEN "writing-alters-machine"
  ELSE IF c.form = "packed" /\ c.bytes # Pack(c.tm) THEN "packed-bytes"
  ELSE IF c.form = "packed" /\ Unpack(c.bytes) # c.tm THEN "packed-not-invertible"
  ELSE IF c.form = "list" /\ (c.ns # Len(c.tm) \/ c.ny # Len(c.tm[1]) \/ ~SameList(ListForm(c.tm), c.bytes)) THEN "list-form"
  ELSE IF c.text # "?" /\ c.text # Text(c.tm) THEN "text-form"
  ELSE IF c.back # c.tm THEN "reads-back-differently"
  ELSE "ok"

\* Bytes found in a file (by whoever wrote them) and the machine the reader makes of them.
Bytes(c) == IF c.form = "packed" THEN (IF Unpack(c.bytes) # c.back THEN "unpacks-wrongly" ELSE "ok")
            ELSE IF FromBbc(c.bytes) # c.back THEN "unpacks-wrongly" ELSE "ok"

Morphett(c) ==
  LET want == Quints(c.tm, c.states, BlankFirst(c.symbols)) IN
  IF c.after # c.tm \/ c.states2 # c.states \/ c.symbols2 # c.symbols THEN "writing-alters-machine"
  ELSE IF Len(c.lines) # Cardinality(want) \/ Range(c.lines) # want THEN "written-lines"
  ELSE IF Quints(c.back, c.bstates, BlankFirst(c.bsymbols)) # want THEN "reads-back-differently"
  ELSE IF c.bsymbols[1] # "_" \/ c.bstates[1] # c.states[1] THEN "blank-or-start"
  ELSE "ok"

\* A file: the records handed to the writer, and what each reading of it (whole, cut, skipping)
\* gave.  Records are compared as the harness names them: the fingerprint of machine and results.
RECURSIVE Ends(_, _)
Ends(lens, at) == IF lens = <<>> THEN <<>> ELSE <<at + Head(lens)>> \o Ends(Tail(lens), at + Head(lens))
FileVerdict(c) ==
  LET ends == Ends(c.lens, c.start)         \* c.lens: bytes each record occupies
      Full(cut) == Cardinality({j \in 1..Len(ends) : ends[j] <= cut})
      Bound(cut) == cut = c.start \/ cut \in Range(ends)
      RdBad(rd) == LET n == Full(rd.cut) IN
                 IF rd.what = "iter"
                 THEN rd.got # SubSeq(c.recs, 1, n) \/ rd.how # (IF Bound(rd.cut) THEN "end" ELSE "cut")
                 ELSE IF rd.what = "skip"   \* skip to the end
                 THEN rd.n # n \/ rd.how # (IF Bound(rd.cut) THEN "end" ELSE "cut")
                 ELSE IF rd.what = "load"   \* one record by number
                 THEN rd.got # (IF rd.n < n THEN <<c.recs[rd.n + 1]>> ELSE <<>>)
                 ELSE TRUE
      bad == {j \in 1..Len(c.reads) : RdBad(c.reads[j])}
  IN IF c.frames = 1 /\ LET x == RF!ReadFrom(c.bytes, 0, 4, 0) IN
                           x.how # "end" \/ [j \in 1..Len(x.recs) |-> Len(x.recs[j]) + 4] # c.lens
     THEN "framing"
     ELSE IF bad # {} THEN "reading-" \o c.reads[CHOOSE j \in bad : \A k \in bad : j <= k].what \o "-"
                            \o ToString(CHOOSE j \in bad : \A k \in bad : j <= k)
     ELSE "ok"

Verdict(c) == CASE c.k = "machine" -> Machine(c)
                [] c.k = "bytes" -> Bytes(c)
                [] c.k = "morphett" -> Morphett(c)
                [] c.k = "file" -> FileVerdict(c)

Init == i \in 1..Len(Cases) /\ out = "no"
Next == /\ out = "no"
        /\ out' = Verdict(Cases[i])
        /\ PrintT("V|" \o ToString(Cases[i].id) \o "|" \o out')
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
==============================================================================

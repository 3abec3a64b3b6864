----------------------------- MODULE RecordFile -----------------------------
(***************************************************************************)
(* Files of records: a writer appends records one by one, a crash leaves an *)
(* arbitrary prefix of the bytes, a reader goes through what is there.      *)
(*                                                                          *)
(* Each record is a frame: a header of HdrLen bytes holding the length of   *)
(* the payload (least significant byte first), then the payload.  A fixed   *)
(* size format is the special case HdrLen = 0 with Fixed > 0.               *)
(* The operators (ReadFrom) are reused by RecordCases to judge what the     *)
(* real readers make of real files.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

\* ------------------------------------------------------------ the format
RECURSIVE LE(_, _)
LE(n, k) == IF k = 0 THEN <<>> ELSE <<n % 256>> \o LE(n \div 256, k - 1)
RECURSIVE UnLE(_)
UnLE(bs) == IF bs = <<>> THEN 0 ELSE Head(bs) + 256 * UnLE(Tail(bs))

Frame(payload, hdr) == LE(Len(payload), hdr) \o payload

\* What a reader finds in the bytes bs from position p on (0-based): a record and the
\* position after it, the end of the file, or a cut-off record.
ReadAt(bs, p, hdr, fixed) ==
  IF p = Len(bs) THEN [k |-> "end", rec |-> <<>>, next |-> p]
  ELSE IF p + hdr > Len(bs) THEN [k |-> "cut", rec |-> <<>>, next |-> p]
  ELSE LET n == IF fixed > 0 THEN fixed ELSE UnLE(SubSeq(bs, p + 1, p + hdr))
       IN IF p + hdr + n > Len(bs) THEN [k |-> "cut", rec |-> <<>>, next |-> p]
          ELSE [k |-> "rec", rec |-> SubSeq(bs, p + hdr + 1, p + hdr + n), next |-> p + hdr + n]

RECURSIVE ReadFrom(_, _, _, _)
ReadFrom(bs, p, hdr, fixed) ==
  LET x == ReadAt(bs, p, hdr, fixed) IN
  IF x.k # "rec" THEN [recs |-> <<>>, how |-> x.k]
  ELSE LET y == ReadFrom(bs, x.next, hdr, fixed) IN [recs |-> <<x.rec>> \o y.recs, how |-> y.how]

\* ------------------------------------------------------------- the system
CONSTANTS Payloads, Hdr, MaxRecs
VARIABLES written,   \* the records handed to the writer
          disk,      \* the bytes that reached the file
          up,        \* the writer is alive
          pos,       \* reader position, -1: not opened
          got,       \* records the reader returned
          how        \* how the reader ended: "no" (not yet), "end", "cut"
vars == <<written, disk, up, pos, got, how>>

Init == written = <<>> /\ disk = <<>> /\ up = TRUE /\ pos = -1 /\ got = <<>> /\ how = "no"
Write(r) == /\ up /\ Len(written) < MaxRecs
            /\ written' = Append(written, r)
            /\ disk' = disk \o Frame(r, Hdr)
            /\ UNCHANGED <<up, pos, got, how>>
\* Closing normally, or dying with any prefix on disk.
Close == up /\ up' = FALSE /\ UNCHANGED <<written, disk, pos, got, how>>
Crash(k) == /\ up /\ up' = FALSE /\ disk' = SubSeq(disk, 1, k)
            /\ UNCHANGED <<written, pos, got, how>>
Open == ~up /\ pos = -1 /\ pos' = 0 /\ UNCHANGED <<written, disk, up, got, how>>
Read == /\ pos >= 0 /\ how = "no"
        /\ LET x == ReadAt(disk, pos, Hdr, 0) IN
             IF x.k = "rec" THEN got' = Append(got, x.rec) /\ pos' = x.next /\ UNCHANGED how
             ELSE how' = x.k /\ UNCHANGED <<got, pos>>
        /\ UNCHANGED <<written, disk, up>>
Next == \/ \E r \in Payloads : Write(r)
        \/ Close \/ Open \/ Read
        \/ \E k \in 0..Len(disk) : Crash(k)
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ WF_vars(Open)

Bytes(rs) == FlattenSeq([j \in 1..Len(rs) |-> Frame(rs[j], Hdr)])

\* Never a record that was not written, never out of order.
PrefixRead == IsPrefix(got, written)
\* A reader that ends quietly has read every record of which anything is on disk.
QuietEnd == how = "end" => disk = Bytes(got)
\* One that reports a cut has read all complete records, and something incomplete follows.
CutEnd == how = "cut" => /\ Len(disk) > Len(Bytes(got))
                         /\ Len(got) < Len(written)
                         /\ Len(disk) < Len(Bytes(SubSeq(written, 1, Len(got) + 1)))
Complete == how = "end" /\ disk = Bytes(written) => got = written
Ends == (pos = 0) ~> (how # "no")
==============================================================================

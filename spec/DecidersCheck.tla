--------------------------- MODULE DecidersCheck ---------------------------
(***************************************************************************)
(* Two uses of Deciders.                                                    *)
(*  SoundSpec: for every machine with S states and Y symbols (one out of    *)
(*   STRIDE of them), every decider that answers "infinite" is right: its   *)
(*   language contains every configuration of the run (inductiveness) and   *)
(*   the machine does not halt within BOUND steps.  For S = Y = 2 every     *)
(*   machine that halts does so within 6 steps, so BOUND > 6 is complete.   *)
(*  CaseSpec: what the specified deciders answer on the recorded CASES.     *)
(***************************************************************************)
EXTENDS Deciders, Json, IOUtils

S == atoi(IOEnv.STATES)
Y == atoi(IOEnv.SYMBOLS)
BOUND == atoi(IOEnv.BOUND)
STRIDE == atoi(IOEnv.STRIDE)
PHASE == atoi(IOEnv.PHASE)

VARIABLES code, dec, done
vars == <<code, dec, done>>

\* The cells of a machine as digits of a number: 0 is undefined, others are running transitions.
NCell == 2 * S * Y + 1
CellOf(x) == IF x = 0 THEN <<-1, -1, -1>>
             ELSE LET y == x - 1 IN <<y % Y, (y \div Y) % 2, y \div (2 * Y)>>
Machine(n) == [q \in 1..S |-> [s \in 1..Y |-> CellOf((n \div (NCell ^ ((q - 1) * Y + (s - 1)))) % NCell)]]
NumMachines == NCell ^ (S * Y)

Shapes == {"as", "asb", "abs", "asbc"}
Deciders_ == {<<sh, cut>> : sh \in Shapes, cut \in {0, 2, 5}}
             \cup {<<"cps", b>> : b \in {1, 2}} \cup {<<"rev", 0>>} \cup {<<"back", n>> : n \in {1, 3, 6}}

\* The n-th configuration for n = 0..BOUND.
Answer(tm, x) ==
  CASE x[1] \in Shapes -> TapeLanguage(tm, x[1], x[2]) # <<>>
    [] x[1] = "cps" -> PositionSet(tm, x[2], 2 * x[2], 60)
    [] x[1] = "rev" -> ReverseEngineer(tm)
    [] x[1] = "back" -> Backtrack(tm, x[2])

\* The language contains the whole run from the cutoff on.
Inductive(tm, x) ==
  x[1] \in Shapes =>
    LET T == TapeLanguage(tm, x[1], x[2]) IN
    T # <<>> => \A n \in x[2]..BOUND : LET c == Run(tm, Blank, n) IN InLang(tm, x[1], T[1], c)

SoundInit == /\ code \in {n \in 0..(NumMachines - 1) : n % STRIDE = PHASE % STRIDE}
             /\ dec \in Deciders_
             /\ done = "no"
SoundNext == /\ done = "no"
             /\ done' = IF Answer(Machine(code), dec) THEN "infinite" ELSE "unknown"
             /\ UNCHANGED <<code, dec>>
SoundSpec == SoundInit /\ [][SoundNext]_vars

Sound == done = "infinite" => /\ ~Halted(Run(Machine(code), Blank, BOUND))
                              /\ Inductive(Machine(code), dec)

------------------------------------------------------------------------------
Cases == JsonDeserialize(IOEnv.CASES)
CaseInit == code \in 1..Len(Cases) /\ dec = <<>> /\ done = "no"
CaseAnswer(cs) ==
  IF cs.dec \in Shapes THEN TapeLanguage(cs.tm, cs.dec, cs.p) # <<>>
  ELSE IF cs.dec = "cps" THEN PositionSet(cs.tm, cs.p, cs.w, 200)
  ELSE IF cs.dec = "rev" THEN ReverseEngineer(cs.tm)
  ELSE Backtrack(cs.tm, cs.p)
CaseNext == /\ done = "no"
            /\ done' = IF CaseAnswer(Cases[code]) THEN "infinite" ELSE "unknown"
            /\ PrintT("V|" \o ToString(Cases[code].id) \o "|" \o done')
            /\ UNCHANGED <<code, dec>>
CaseSpec == CaseInit /\ [][CaseNext]_vars
==============================================================================

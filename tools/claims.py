MC = "model_checking"
CLAIMS = {
 "P01": (MC, "TLA+ machine semantics; TLC validates recorded configurations",
   "TLC runs the specified machine of TuringMachine.tla for every recorded machine and evaluates each reported configuration and halt; bounded by the generated machines and step limits, not a proof for all machines."),
 "P02": (MC, "TLA+ refinement mapping (RunLength.tla); TLC validates recorded accelerated runs",
   "Every configuration reported by the accelerated simulator is decompressed by the abstraction function of RunLength.tla and compared by TLC with the specified run; bounded by generated machines, block sizes, offsets and step limits."),
 "P03": (MC, "TLA+ refinement mapping; TLC validates recorded proven-rule applications",
   "As P02 with provers of all option combinations, over machines selected because their simulation applies many proven rules."),
 "P04": (MC, "TLC validates recorded halting verdicts of the pipeline against the specified run",
   "Randomised option settings and machines; each verdict (steps, score, halting transition) is compared by TLC with the specified run. Runs longer than the TLC step bound are not judged (counted in evidence)."),
 "P05": (MC, "TLC refutes recorded 'infinite' verdicts by running the specified machine",
   "A wrong infinite verdict is found when the specified machine halts within the bound; most inputs are machines that do halt, so every infinite verdict on them is refuted."),
 "P06": (MC, "TLA+ specification of translated cycles (LinRecur.tla); TLC validates recorded certificates",
   "TLC decides the certificate exactly (the window argument makes one period sufficient), minimality of period and start, and that no recurrence in reach was overlooked; bounded by machines and step limits."),
 "P07": (MC, "TLA+ specification of the closed-tape-language deciders (Deciders.tla): exhaustive soundness by TLC + refutation of recorded verdicts",
   "Deciders.tla specifies the four closures; TLC proves each decider sound for all 2x2 machines within bounds and every 'infinite' verdict of the real filters is confronted with the specified run of machines that halt after visiting the tape shapes the filters look at. Bounded by machines and parameters."),
 "P08": (MC, "TLA+ specification of the closed-position-set decider: exhaustive soundness by TLC + refutation of recorded verdicts",
   "As P07, for CPS."),
 "P09": (MC, "TLA+ specification of the static reverse-engineering rule: exhaustive soundness by TLC + refutation of recorded verdicts",
   "As P07, for the static filter."),
 "P10": (MC, "TLA+ specification of backtracking: exhaustive soundness by TLC + refutation of recorded verdicts",
   "As P07, for backtracking, with all step and width limits drawn."),
 "P11": (MC, "TLC validates recorded quasihalting verdicts against LinRecur.tla and specified runs",
   "Exact for Lin-recurrent machines (the recurrence is proven by TLC first); otherwise refutation within the step bound."),
 "P12": (MC, "TLA+ specification of the tree-normal-form tree (Enumeration.tla), explored by TLC; TLC judges every record of real enumerations",
   "Small sizes completely (2x2, 3x2, 2x3, all options), larger ones up to a number of machines, and the complete subtrees below deep nodes of sizes up to 6x2, 2x6: records must be the roots plus the specified children of the halting records, each once. TLC shows for the small sizes that the specified tree has no duplicates and contains every machine up to renaming."),
 "P13": (MC, "TLA+ tree and Lin-recurrence specifications; TLC judges the C++ enumerators' output; Lazy Beaver values from TLC's exploration of the tree",
   "lr_enum outputs for small sizes completely and for larger sizes at small limits, with and without Boost, and subtrees below deep nodes of larger sizes; Lazy Beaver values of 2x2, 3x2, 2x3 (4x2 in the thorough tier)."),
 "P14": (MC, "TLA+ tree law judged by TLC on the union of the records of enumerations cut, shuffled, split and continued",
   "Random cut points, splits and limit schedules for the Python and C++ enumerators and their scripts, also reruns over records with old results; bounded by the sampled schedules."),
 "P15": (MC, "TLA+ protocol model (WorkQueue.tla) exhaustively checked by TLC incl. liveness; its behaviours replayed into the real master and workers over a simulated message layer; histories judged by TLC (QueueHistory.tla)",
   "The model: 2-4 workers, up to 9 jobs, asynchronous and synchronous sends. The real code: TLC-generated, random and priority schedules with message arrival decided at every communication call; messages between two processes arrive in order (as MPI transports do)."),
 "P16": (MC, "TLA+ model of record files, crashes and readers (RecordFile.tla) explored by TLC; TLC judges what the real writers wrote and the real readers read, at every cut point (RecordCases.tla)",
   "Model: all interleavings of writing, crashing and reading of small files. Code: random machines and records of all sizes each format supports, all formats and their compressed forms, skipping, every cut of small files."),
 "P17": (MC, "TLA+ specification of the numbers (BigNum.tla: exact limbs, residues, magnitude intervals); TLC checks it against itself and judges every recorded result of the real operators",
   "Exact up to 360 digits, modulo 6 coprime moduli beyond; comparisons by exact value or by logarithm intervals (pairs whose intervals overlap are not decided). Random expressions of up to 4 exponential levels."),
 "P18": (MC, "TLA+ specification of expressions, series and rule functions (Algebra.tla); TLC checks its laws and judges every recorded result of the real operators at many assignments",
   "Values are compared at sampled assignments within 32-bit range (exact where in range); random expressions of up to 3 variables and degree 6, all small expressions, random rule functions compared with repeated application."),
 "P19": (MC, "TLA+ specification of renamings and normal forms (Renaming.tla); TLC checks its laws for all small machines and judges every recorded result of the real functions and tools",
   "The step-for-step correspondence is decided by TLC from the specified runs of both machines under the renaming; the lexical normal form is compared with the least of all renamings for the sizes where they can be listed (up to 4x2, 3x3)."),
 "P20": (MC, "TLA+ model of the timed analysis (TimedAnalysis.tla) + interruption of the real code at every recorded point",
   "The time limit is delivered at bytecode-level points of the analysis; what is recorded afterwards must be no decision or the complete verdict of the uninterrupted run; failing analyses (errors injected at sampled points) are treated alike. Bounded by the sampled machines and points."),
 "P21": (MC, "TLA+ specification of what each record tool does to a sequence of records (RecordTools.tla), its conservation laws explored by TLC; TLC judges the recorded input and output files of the real tools (RecordToolCases.tla)",
   "Model: every short sequence of records for every tool. Code: random record files of all kinds of verdict, complete and truncated, through the real command lines; sampling additionally by repeated draws against the specified distribution (6 sigma). Bounded by the sampled files."),
 "P22": (MC, "TLA+ specification of the space of machines, its symmetry classes and neighbourhoods (Census.tla), exhaustively counted by TLC for small sizes; TLC judges every recorded count, neighbour list and printed table (CensusCases.tla)",
   "Counts are judged per node against the specified count (which TLC confirms by listing the space for small sizes) and in total for complete enumerations; neighbours and tables for random machines of up to 6 states and symbols."),
 "P23": (MC, "TLA+ specification of closed-position-set certificates (CPSCert.tla), its soundness checked by TLC for all machines of a small size; TLC judges every certificate recorded from the real prover",
   "The certificate condition is decided exactly by TLC for each recorded certificate; bounded by the sampled machines (all 2x2 machines and random larger ones), block and window sizes."),
 "P24": (MC, "TLA+ machine semantics and refinement mapping (RunClaims.tla); TLC validates every configuration, halt and table entry read back from what the programs print",
   "Random machines, start configurations and options; printed text is parsed into claims that TLC evaluates on the specified run. Numbers beyond 6000 steps are not judged; macro table entries of 128 or more base steps are not judged (the table does not mark those that never end)."),
 "P25": (MC, "explicit state machine of filtering campaigns (FilterPipeline.tla) checked by TLC; campaigns carried out with the real scripts are replayed event by event against it (FilterRounds.tla)",
   "Model: 3 machines, 2 rounds, 2 shards (quick), larger in thorough; random campaigns of a few rounds and shards with failing, record-losing and repeated shards and real or scripted filters. The scripts' rm is replaced by one that only removes inside the scratch directory."),
}
NOT_APPLICABLE = {}

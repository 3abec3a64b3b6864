#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run by hand; outputs committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))

def P(id, title, statement, over, qtext, why, files, mech, observe=()):
  return {"id": id, "title": title, "statement": statement,
          "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
          "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                      "observe_at": list(observe), "hook_needed": None}}

PROPS = [
P("P01", "Direct simulation is exact",
  "For every Turing machine and every number of steps, the step-by-step simulators (Python and C++) report exactly the state, head position, tape contents, step count and halting (with its final score and halting transition) that the machine's transition table defines from the blank tape. Undefined transitions act as write 1, move right, halt; a halted simulation never advances; a copied simulation is independent of the original.",
  ["inputs", "programs"], "all machines, all step counts, all interleavings of step/seek/copy",
  "Tests run a handful of machines to their halt and compare two numbers; the tape-growth, position bookkeeping and copy paths are only exercised on those.",
  ["Code/Direct_Simulator.py", "cpp/src/simulator.cpp", "cpp/src/simulator.h", "cpp/src/turing_machine.cpp", "cpp/src/direct_sim_all.cpp"],
  [("DirectTape / DirectSimulator", "Code/Direct_Simulator.py"), ("Tape::move growth, DirectSimulator::Seek", "cpp/src/simulator.cpp")],
  ["Python simulator object after each seek", "direct_sim_all output", "C++ simulator object"]),
P("P02", "Accelerated simulation refines the base machine",
  "Every configuration that the accelerated simulator reports - whatever block size, block offset, back-symbol encoding and chain moves it uses - decompresses to exactly the configuration the base machine has after the reported number of base steps, and reported configurations come in increasing step order. If it stops with a halt, an undefined transition or a proven repetition, the base machine does halt at exactly that step with that tape, score and transition, or never halts, respectively; the per-state last-visit steps it reports are the true ones.",
  ["programs", "configurations"], "all machines x all block sizes, offsets, back-symbol on/off, at every simulation loop",
  "Tests compare final step count and score of about ten machines; intermediate configurations, offsets and last-visit data are never compared with a base run.",
  ["Code/Macro/Turing_Machine.py", "Code/Macro/Simulator.py", "Code/Macro/Tape.py"],
  [("sim_limited, Block_Macro_Machine, Backsymbol_Macro_Machine", "Code/Macro/Turing_Machine.py"), ("Simulator.step", "Code/Macro/Simulator.py"), ("Chain_Tape.apply_single_move / apply_chain_move", "Code/Macro/Tape.py")],
  ["Simulator state, dir, tape, step_num after each step()"]),
P("P03", "Proven rules replay exactly",
  "Whenever the simulator applies a rule it has proven (including recursive, limited, linear and general rules, in any combination of prover options), the resulting configuration, the number of base steps added and the last-visit steps are exactly those of the base machine. If the proof system concludes that a machine runs forever, the base machine never halts.",
  ["programs", "configurations"], "all machines, all prover option combinations, every rule application at every repetition count",
  "Unit tests pin four hand-written rules and the final counts of known machines; a rule that is wrong for another exponent pattern or another parity goes unnoticed.",
  ["Code/Macro/Proof_System.py", "Code/Macro/Rule_Func.py", "Code/Macro/Simulator.py", "Code/Algebraic_Expression.py"],
  [("Proof_System.prove_rule / apply_*_rule / series_sum", "Code/Macro/Proof_System.py"), ("strip_config, past_config", "Code/Macro/Proof_System.py")],
  ["Simulator state, dir, tape, step_num, states_last_seen after each rule move"]),
P("P04", "Halting verdicts are exact",
  "When the analysis of a machine ends with a halting (or undefined-transition) verdict, the recorded step count, final number of non-blank symbols and the state and symbol of the last transition are exactly those of the base machine's run, for every option setting (with step counting switched off the step count is left at 0). The enumeration extends a machine at exactly that transition.",
  ["programs", "configurations"], "all halting machines, all simulator/prover/filter options",
  "Tests compare known champions under default options; other halting behaviours and options are not compared with a base run.",
  ["Code/Macro_Simulator.py", "Code/Macro/Simulator.py", "Code/Halting_Lib.py", "Code/Macro/Block_Finder.py", "Code/Quick_Sim.py"],
  [("run_options, simulate_machine", "Code/Macro_Simulator.py"), ("set_halting", "Code/Halting_Lib.py")],
  ["status record of the analysed machine"]),
P("P05", "No machine that halts is ever called infinite",
  "If the full analysis pipeline, under any option setting, declares a machine to run forever, then the machine does not halt from the blank tape.",
  ["programs", "configurations"], "all machines, all combinations of the pipeline's options and filters",
  "Gold-file tests cover machines of up to 6 transitions under default options; soundness must hold for every machine and option.",
  ["Code/Macro_Simulator.py", "Code/Macro/Simulator.py", "Code/Macro/Proof_System.py", "Code/Lin_Recur_Detect.py", "Code/Reverse_Engineer_Filter.py", "Code/CTL2.py"],
  [("run_options", "Code/Macro_Simulator.py"), ("each filter's set_not_halting / set_inf_recur", "Code/Halting_Lib.py")],
  ["status record"]),
P("P06", "Lin-recurrence certificates are valid",
  "Whenever a machine is reported Lin-recurrent with a start (bound), a period and an offset - by the Python or the C++ detector - the machine really is in the translated-cycle it describes: from that start on, after each period it is in the same state with the same tape, relative to the head shifted by the offset, as far as it looks. The reported period is the least one, an exactly reported start is the earliest one, and halting machines are reported with their exact halting step. Within its step limit a detector overlooks neither a halt nor a recurrence that shows between two consecutive powers of two of steps.",
  ["programs", "configurations"], "all machines, all step limits, with and without start minimisation",
  "Tests check nine machines; the check/periods/windows logic is exercised on few offsets and both directions are not covered.",
  ["Code/Lin_Recur_Detect.py", "cpp/src/lin_recur.cpp", "cpp/src/lin_recur_main.cpp"],
  [("lin_detect_not_min / lin_search / check_recur", "Code/Lin_Recur_Detect.py"), ("LinRecurDetect, CheckRecur, period search", "cpp/src/lin_recur.cpp")],
  ["filter status, command output"]),
P("P07", "Closed-tape-language filters are sound",
  "If any of the closed-tape-language filters, with any block size, offset, back-symbol setting and cutoff, proves a machine infinite, then the machine never halts from the blank tape.",
  ["programs", "configurations"], "all machines x four filters x all parameters",
  "No unit test covers these filters except through two gold enumerations.",
  ["Code/CTL1.py", "Code/CTL2.py", "Code/CTL3.py", "Code/CTL4.py", "Code/CTL_Filter.py"],
  [("test_CTL and its closure loop", "Code/CTL1.py, CTL2.py, CTL3.py, CTL4.py")],
  ["return value of each filter, filtered records"]),
P("P08", "Closed-position-set filter is sound",
  "If the closed-position-set filter, with any block size, window and limits, proves a machine infinite, then the machine never halts from the blank tape.",
  ["programs", "configurations"], "all machines x all block/window sizes and limits",
  "No test covers this filter.",
  ["Code/CPS.py", "Code/CPS_Filter.py"],
  [("CPSSimulator / filter", "Code/CPS.py")],
  ["filter result and status record"]),
P("P09", "Reverse-engineering filter is sound",
  "If the static reverse-engineering filter declares a machine infinite, the machine never halts from the blank tape.",
  ["programs"], "all machines",
  "Only reached through gold enumerations of up to six transitions.",
  ["Code/Reverse_Engineer_Filter.py"], [("is_infinite / cannot_reach_halt", "Code/Reverse_Engineer_Filter.py")],
  ["filter result"]),
P("P10", "Backtracking filter is sound",
  "If the backtracking filter, with any step and width limit, declares that no halting transition is reachable, the machine never halts from the blank tape; it always answers.",
  ["programs", "configurations"], "all machines x limits",
  "Its tests sample a few machines and do not run at this commit.",
  ["Code/Backtracking_Filter.py"], [("backtrack_ttable", "Code/Backtracking_Filter.py")],
  ["filter result"]),
P("P11", "Quasihalting verdicts are right",
  "When a machine is recorded as quasihalting at a given step in a given state, that state is visited for the last time exactly then and every other state that is visited is visited later or recurs as recorded; when recorded as not quasihalting, every state that it ever visits is visited again and again.",
  ["programs", "configurations"], "all machines whose verdict carries a quasihalting claim",
  "Tests check three machines.",
  ["Code/Halting_Lib.py", "Code/Macro_Simulator.py", "Code/Macro/Simulator.py", "Code/Lin_Recur_Detect.py"],
  [("set_inf_recur", "Code/Halting_Lib.py"), ("inf_recur_states / states_last_seen", "Code/Macro/Simulator.py")],
  ["quasihalt part of the status record"]),
P("P12", "Python enumeration is complete and duplicate-free",
  "Enumerating the machines of a given number of states and symbols yields every machine in tree normal form exactly once, and nothing else, each with the verdict that its own analysis gives, whatever the traversal order; the counting tool's totals agree with the closed formula.",
  ["configurations", "histories"], "all sizes, all traversal orders and enumeration options",
  "Gold files pin three small sizes with default options and order.",
  ["Code/Enumerate.py", "Code/TM_Enum.py", "Code/Work_Queue.py", "Code/Count.py"],
  [("TM_Enum.enum_children", "Code/TM_Enum.py"), ("Enumerator.continue_enum / add_result", "Code/Enumerate.py")],
  ["records written by an enumeration"]),
P("P13", "C++ enumeration and Lazy Beaver values are right",
  "The C++ enumerators visit exactly the tree-normal-form machines of the given size and step limit, each once, with correct halting step counts and Lin-recurrence certificates, for both settings of allowing machines without a halting transition. The Lazy Beaver number printed is the smallest step count at which no machine of that size halts, and the recorded witnesses halt at the steps they are recorded for.",
  ["configurations"], "all sizes and limits",
  "There are no C++ tests.",
  ["cpp/src/enumerator.cpp", "cpp/src/lin_recur_enumerator.cpp", "cpp/src/lazy_beaver_enumerator.cpp", "cpp/src/turing_machine.cpp", "cpp/src/lr_enum.cpp", "cpp/src/lb_enum.cpp"],
  [("BaseEnumerator::Enumerate/ExpandTM", "cpp/src/enumerator.cpp"), ("LazyBeaverEnum", "cpp/src/lazy_beaver_enumerator.cpp")],
  ["output files and stdout"]),
P("P14", "Splitting and resuming an enumeration loses nothing",
  "However an enumeration is cut into pieces - stopped after any number of machines and continued from the written queue, shuffled or split over several continuations, or first run with a smaller step limit and then continued - the union of the decided results is the same as that of one uninterrupted enumeration, with no machine lost or reported twice. Machines fed in again with earlier results are analysed afresh and keep nothing of those results. The scripts that enumerate with several processes (lr_enum_local_parallel.sh, its dev_null variant, lb_enum_local_parallel.sh) end up with what one process would have written, or report an error when one of their parts died.",
  ["histories", "crash_points"], "all cut points, numbers of pieces and step-limit schedules",
  "One test resumes one size at one cut point.",
  ["Code/Enumerate.py", "Code/IO/Proto.py", "Code/IO/TM_Record.py", "cpp/src/lr_enum_continue.cpp", "cpp/src/lb_enum_continue.cpp", "cpp/scripts/shuffle_split.py", "cpp/scripts/merge_steps_examples.py", "cpp/scripts/lr_enum_local_parallel.sh", "cpp/scripts/lr_enum_local_parallel_dev_null.sh", "cpp/scripts/lb_enum_local_parallel.sh"],
  [("--num-enum / --infile", "Code/Enumerate.py"), ("lr_enum_continue", "cpp/src/lr_enum_continue.cpp")],
  ["records written by the pieces"]),
P("P15", "Work queues neither lose nor duplicate jobs and terminate",
  "Every job pushed to a work queue (in-process or distributed over processes by messages) is handed out exactly once, for every interleaving of workers and messages; workers are told that there is no more work only when no job is queued, in flight or being worked on, and every run in which the workers finish their jobs terminates with all workers told.",
  ["schedules", "histories"], "all interleavings of a master and any number of workers, all push/pop patterns",
  "The distributed queue's only test needs an MPI launcher, samples one schedule and does not pass at this commit.",
  ["Code/MPI_Work_Queue.py", "Code/Work_Queue.py"],
  [("Master.run_master, Worker.pop_job/push_job/_send_extra", "Code/MPI_Work_Queue.py"), ("LIFO / FIFO / Random queues", "Code/Work_Queue.py")],
  ["jobs popped by each worker", "messages"]),
P("P16", "Stored records read back unchanged",
  "A machine or record written in any of the repository's readable formats is read back as the same machine (same transitions, including undefined ones and halting ones whichever letter or sign spells them, and number of states and symbols), in order, at any size the format supports, and formats that carry results (the record file format, also compressed) give the same results back; writing does not alter the machine in memory. A record file or database file cut off in the middle of a record is reported as such, the records before the cut are read, and no different record is ever read.",
  ["inputs", "crash_points"], "all machines, all record sequences, all truncation points, all formats",
  "Tests write and read a few 2-symbol machines.",
  ["Code/IO/Proto.py", "Code/IO/TM_Record.py", "Code/IO/StdText.py", "Code/IO/Morphett.py", "Code/IO/BBC.py"],
  [("pack_tm / unpack_tm / tm_to_list / tm_from_list", "Code/IO/TM_Record.py"), ("Writer / Reader framing", "Code/IO/Proto.py")],
  ["bytes on disk and machines read back"]),
P("P17", "Big-number arithmetic is exact",
  "Arithmetic on exponential big integers (sum, difference, product, powers of integers, exact division, quotient and remainder, negation), as well as printing and serialising them, gives exactly the mathematical value, whatever mixture of plain and exponential integers it is done with, or declines with an error; the sign and the comparisons are right for every pair of numbers that can be evaluated and for larger ones whose magnitudes clearly differ; parsing a serialised number gives the number back, and printed approximations are right to the printed precision.",
  ["inputs"], "all expressions built from integers and exponentials",
  "Unit tests sample small values.",
  ["Code/Exp_Int.py", "Code/Halting_Lib.py"],
  [("ExpInt / ExpTerm operators", "Code/Exp_Int.py"), ("set_big_int / get_big_int", "Code/Halting_Lib.py")],
  ["results of operators"]),
P("P18", "Symbolic algebra used in proofs is exact",
  "Algebraic expressions obey integer polynomial arithmetic: sum, difference, product, power, division by a number, substitution, renaming and variable restriction of expressions (also of expressions containing symbolic powers) evaluate, at every assignment of the variables, to the value obtained by computing with the substituted numbers, or are declined with an error; equality, lower bounds and \"always at least\" answers hold at every assignment in the range they are about; symbolic sums of series equal the term-by-term sums, and the functions that jump over many repetitions of a proven rule give the result of repeating it one at a time.",
  ["inputs"], "all expressions and assignments",
  "Unit tests sample a few expressions.",
  ["Code/Algebraic_Expression.py", "Code/Macro/Proof_System.py", "Code/Math.py"],
  [("Algebraic_Expression / Term operators", "Code/Algebraic_Expression.py"), ("series_sum", "Code/Macro/Proof_System.py")],
  ["results of operators"]),
P("P19", "Normal forms and permutations preserve behaviour",
  "Normalising or permuting a machine (tree normal form, lexical normal form, start-state permutation, state/symbol renaming, mirror image) yields a machine whose run from the blank tape corresponds step for step to the original's under one fixed renaming of states, symbols and directions, with the same halting step (halting transitions are normalised to 1RZ, so the score is the same whenever the original's halting transition writes a non-blank symbol). Tree normal form moves right first, names states in order of first visit and symbols in order of first write, over the given number of steps; lexical normal form is the least table among all renamings of the machine; both are idempotent, start-state permutations list every start state, and the machine given is left unchanged.",
  ["programs"], "all machines",
  "Tests check a handful of machines.",
  ["Code/TNF.py", "Code/LNF.py", "Code/Permute.py"],
  [("to_TNF / permute_table", "Code/TNF.py"), ("brute_lnf", "Code/LNF.py")],
  ["returned machines"]),
P("P20", "Running out of time never yields a wrong verdict",
  "If the analysis of a machine is interrupted by its time limit at any moment, what is recorded for the machine is either no decision or a complete and correct one, and an enumeration continues correctly with the next machine; likewise if the analysis of a machine fails with an error of its own. An analysis that would go on beyond its limit is ended there and marked as out of time, one that ends within its limit is not affected by it, and the limit's alarm never goes off outside of the analysis it was set for.",
  ["crash_points", "schedules"], "all interruption points in the analysis",
  "Tests never trigger the timer.",
  ["Code/Macro_Simulator.py", "Code/Alarm.py", "Code/Enumerate.py", "Code/Halting_Lib.py"],
  [("run_timer / AlarmException", "Code/Macro_Simulator.py, Code/Alarm.py")],
  ["status record after an interrupted analysis"]),
P("P21", "Record tools conserve records",
  "Converting, filtering, categorising, sorting, sampling, counting and selecting records keeps every record it should exactly once and unchanged. A filter keeps all records in order, each with the same machine, and changes verdicts only by what it decides itself about that record (records already decided stay as they are, and what it does to one record does not depend on the records before it), it decides a machine exactly when one of the settings its options ask for does, and the setting it records with a success is one that does; categorising splits the input into disjoint files by verdict that together contain every record; conversion preserves the sequence of machines; sorting yields a permutation in the documented order; sampling picks min(n, total) distinct records of the input, each record equally likely; searching returns exactly the first matching record; re-simulation replaces the simulator's result and the verdict by ones that do not depend on the verdict recorded before; and the counts and statistics the tools print are those of the records in the file. On a truncated file all complete records are kept.",
  ["inputs", "configurations"], "all record files (including truncated ones) and option settings",
  "There are no tests of these tools.",
  ["Code/IO_Categorize.py", "Code/IO_Convert.py", "Code/IO_Sort.py", "Code/IO_Sample.py", "Code/IO_Count.py", "Code/IO_Find.py", "Code/Find_Record.py", "Code/Read_Record.py", "Code/CTL_Filter.py", "Code/CPS_Filter.py", "Code/Backtracking_Filter.py", "Code/Reverse_Engineer_Filter.py", "Code/Zero_Reflexive.py", "Code/Re_Sim.py", "Code/TM_Analyze.py", "Code/IO/Proto.py"],
  [("main of each tool", "Code/IO_*.py, Code/*_Filter.py")],
  ["output files", "printed statistics"]),
P("P22", "Counts, neighbours and printed tables are exact",
  "For each machine in tree normal form, the counting tool gives exactly the number of machines (first transition 1RB, halting transition 1RZ, with exactly one or at most one halting transition as asked) that the machine stands for, so that the counts of a complete enumeration add up to the size of the space. The neighbour tool lists every machine that differs from the input in exactly one running cell, each exactly once, leaves the input unchanged, and prints the start-state permutations of the machine and its neighbours. Printed transition tables and the conversion of gists to simulator input describe exactly the machine they were given.",
  ["inputs", "programs"], "all machines of all sizes, all options of the tools",
  "There are no tests of these tools; a count is only right if it is right on every node of the tree.",
  ["Code/Count.py", "Code/Adjacent.py", "Code/TM_Print.py", "Code/IO_CGA_to_Morphett.py", "Code/Macro/Turing_Machine.py"],
  [("count", "Code/Count.py"), ("adjacent, write_adjacent", "Code/Adjacent.py")],
  ["printed counts", "printed machines"]),
P("P23", "Closed position set certificates are proofs",
  "Every certificate that the closed-position-set prover prints (or holds after proving a machine infinite) is complete on its own: the blank starting window and blank surroundings are in it, no window of it halts before the head leaves it, and whatever each window becomes - with every block that the recorded surroundings allow to follow, on either side - is in it again, together with the surroundings it leaves behind. A verifier that knows nothing but the machine and the certificate can therefore conclude that the machine never halts.",
  ["inputs", "programs"], "all machines, block and window sizes for which a certificate is printed",
  "Tests check the verdict on a few machines, never the printed certificate.",
  ["Code/CPS.py", "Code/Macro/Turing_Machine.py"],
  [("GraphSet / CPS closure", "Code/CPS.py"), ("savask_cert", "Code/CPS.py")],
  ["printed certificates"]),
P("P24", "What the simulation programs print about a run is true",
  "Every configuration that Quick_Sim, the visual simulator and the direct simulation programs print - in text, HTML or coloured picture, from the blank tape or a given start state or start configuration - is the configuration the machine is in at the step number printed with it; printed halts, scores, halting cells and infinite verdicts are those of the run; the printed transition table is the machine's; every finite entry of the printed macro transition table is what the machine does on that block in the printed number of base steps; and the print options show exactly the steps they select.",
  ["inputs", "configurations"], "all machines, start configurations and options of the programs",
  "There are no tests of the programs' output.",
  ["Code/Quick_Sim.py", "Code/Visual_Simulator.py", "Code/Direct_Simulator.py", "Code/Macro/Simulator.py", "Code/Macro/Tape.py", "Code/Macro/Turing_Machine.py", "cpp/src/direct_sim.cpp"],
  [("run, print_macro_ttable", "Code/Quick_Sim.py"), ("Simulator.verbose_print, Chain_Tape.__repr__", "Code/Macro/Simulator.py, Code/Macro/Tape.py"), ("main", "Code/Visual_Simulator.py")],
  ["standard output of the programs"]),
P("P25", "Filtering campaigns account for every machine",
  "A campaign of filters over the undecided machines - Tools/filter.sh, or the cluster scripts sbatch_filter_setup.sh, _array.sh and _finish.sh around any of the filters - accounts for every machine exactly as often as it was given, at every point: a finished round leaves each machine either in the class file of the verdict the filter gave it (halting, quasihalting - small, large or after an unknown number of steps - or infinite) or among the holdouts of the next round (unknown.pb, and unknown.txt where it is written); the shards of a round cover its holdouts; a shard whose filter fails or loses machines is not marked as successful and can be run again; finishing refuses, and changes nothing, until every shard has succeeded; a filter that fails leaves the holdouts as they were. venn_diff.py splits two lists into the lines only in the one, only in the other and in both.",
  ["histories", "crash points", "inputs"], "all campaigns of rounds and shards, failing and repeated shards included",
  "There are no tests of the scripts, nor of any sequence of filters.",
  ["Tools/filter.sh", "Tools/sbatch_filter_setup.sh", "Tools/sbatch_filter_array.sh", "Tools/sbatch_filter_finish.sh", "Tools/venn_diff.py", "Code/IO_Categorize.py", "Code/IO_Convert.py", "Code/Count.py", "Code/TM_Analyze.py"],
  [("filter.sh", "Tools/filter.sh"), ("sbatch_filter_*.sh", "Tools/sbatch_filter_array.sh, Tools/sbatch_filter_finish.sh"), ("main", "Code/IO_Categorize.py")],
  ["exit codes", "class files", "holdout files"]),
]

# property -> (level, technique, note); claimed checks only
CLAIMS = {}
NOT_APPLICABLE = {}
from claims import CLAIMS, NOT_APPLICABLE

def main():
  with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
      f.write(json.dumps(p) + "\n")
  from registry import CHECKS
  m = {"version": 1,
       "setup_cmd": "sh -c 'java -version >/dev/null 2>&1 && test -f /opt/veriftools/tla/tla2tools.jar && /opt/venv/bin/python -c \"import google.protobuf\"'",
       "hooks": {"guard": "none", "enable": "no hooks: the checks observe public interfaces, files and command output", "source_commits": []},
       "checks": [], "not_applicable": [],
       "notes": "Technique: explicit TLA+ specification (spec/*.tla) checked with TLC, bound to the code by trace validation and replay; see DESIGN.md."}
  for p in PROPS:
    i = p["id"]
    if i in CLAIMS:
      level, tech, note = CLAIMS[i]
      m["checks"].append({"property": i,
        "quick_cmd": "/opt/venv/bin/python /verif/check.py %s quick" % i,
        "thorough_cmd": "/opt/venv/bin/python /verif/check.py %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech, "level": level, "level_note": note})
    else:
      m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
  json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

main()

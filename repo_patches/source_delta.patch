From 08f8a8f4959135ad5ad2b9f06758e80044332835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:18 +0000
Subject: [PATCH 01/48] fix: analysing a machine with --no-prover no longer
 crashes

---
 Code/Macro_Simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..d1c0974 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -175,13 +175,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
-- 
2.43.0


From 08fd89ef243f59a014598ce87816c751cbdf3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:24 +0000
Subject: [PATCH 02/48] fix: quasihalting after a repeat inside a macro
 transition only ignores the states in the repeat

---
 Code/Macro/Simulator.py      |  7 +++++--
 Code/Macro/Turing_Machine.py | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index fbc64c0..9f3551a 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -181,8 +181,11 @@ class Simulator(object):
     # Apply transition
     if self.op_state == Turing_Machine.INF_REPEAT:
       self.inf_reason = io_pb2.INF_MACRO_STEP
-      # TODO(shawn): This is not 100% accurate. We should only ignore states involved in the repeat-in-place, but trans.states_last_seen could include some states before the repeat.
-      self.inf_recur_states = list(trans.states_last_seen.keys())
+      self.inf_recur_states = trans.states_recur
+      # trans.states_last_seen may include some states only seen before the repeat.
+      if self.compute_steps and self.states_last_seen is not None:
+        for state, trans_last_seen in trans.states_last_seen.items():
+          self.states_last_seen[state] = self.step_num + trans_last_seen
     # Chain move
     elif trans.state_out == self.state and trans.dir_out == self.dir and \
        self.op_state == Turing_Machine.RUNNING:
diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index f3af892..2e6f632 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -52,7 +52,7 @@ class Transition(object):
                condition,
                symbol_out, state_out, dir_out,
                num_base_steps, states_last_seen,
-               condition_details = None):
+               condition_details = None, states_recur = None):
     self.condition = condition
     self.condition_details = condition_details if condition_details else []
     self.symbol_out = symbol_out
@@ -60,6 +60,8 @@ class Transition(object):
     self.dir_out = dir_out
     self.num_base_steps = num_base_steps
     self.states_last_seen = states_last_seen
+    # If condition == INF_REPEAT: The states that are visited forever.
+    self.states_recur = states_recur
 
   # TODO: Deprecate
   def to_legacy_tuple(self):
@@ -104,6 +106,9 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
   # If `old_config` is ever repeated, we know it will repeat forever.
   # Format: (state, dir, pos, tape)
   old_config = None
+  # Number of base steps at which we reached `old_config`.
+  old_config_steps = None
+  states_recur = None
   # Arbitrarily start looking for repeats after ~100 steps (~0.1ms).
   next_config_save = 128
 
@@ -127,6 +132,9 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Found a repeated config.
       condition = INF_REPEAT
       condition_details = [pos]
+      # Only states used since `old_config` are part of the repeat.
+      states_recur = [recur_state for recur_state, last_seen in states_last_seen.items()
+                      if last_seen >= old_config_steps]
       break
     if num_loops >= next_config_save:
       # Brent's algorithm for loop detection:
@@ -135,6 +143,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       #   any repeat which starts at `init_time` and has period `period`
       #   we'll detect the repeat by step `2 * max(init_time, period)`.
       old_config = (state, dir, pos, list(tape))
+      old_config_steps = num_base_steps
       next_config_save *= 2
 
     if num_loops > max_loops:
@@ -147,6 +156,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Base machine stopped running (HALT, INF_REPEAT, etc.)
       condition = trans.condition
       condition_details = trans.condition_details + [pos]
+      states_recur = trans.states_recur
       break
     if not (0 <= pos < len(tape)):
       # We ran off one end of the macro symbol. We're done.
@@ -160,7 +170,8 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
     # Block_Macro_Machine, but Backsymbol_Macro_Machine will need to modify
     # this and state_out.
     symbol_out=tape, state_out=state, dir_out=dir,
-    num_base_steps=num_base_steps, states_last_seen=states_last_seen)
+    num_base_steps=num_base_steps, states_last_seen=states_last_seen,
+    states_recur=states_recur)
 
 
 class Turing_Machine(object):
-- 
2.43.0


From 90d199b5a9e3e28735dabc5c919971eb4e7ef8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:56 +0000
Subject: [PATCH 03/48] fix: a time limit striking while a verdict is recorded
 no longer leaves half of it

---
 Code/Macro_Simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index d1c0974..25d2702 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -64,6 +64,8 @@ def run_timer(tm_record : TM_Record, options,
 
   except Alarm.AlarmException:
     Alarm.ALARM.cancel_alarm()
+    # We may have been interrupted while recording a result.
+    tm_record.proto.status.Clear()
     tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
       time.time() - start_time)
 
-- 
2.43.0


From 6a68824e853bb09c6aa849dfae847a9f1e7c05c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:17 +0000
Subject: [PATCH 04/48] fix: CTL4 looks at the outermost run of symbols, not at
 one counted from the head

---
 Code/CTL4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 24f4419..28a1d44 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -114,11 +114,11 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
         B = set([sim.tape.tape[d][1].symbol])
         if len(sim.tape.tape[d]) >= 3:
           A.add(sim.tape.tape[d][2].symbol)
-        if sim.tape.tape[d][-2].num > 2:
+        if sim.tape.tape[d][1].num > 2:
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-        if sim.tape.tape[d][-3].num > 1:
+        if sim.tape.tape[d][2].num > 1:
           A.add(sim.tape.tape[d][2].symbol)
     # Only one non-zero symbols not in A
     # Set C to the zero symbol
-- 
2.43.0


From f8336d8074dc55cca0145c61a52d23011a876bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:23 +0000
Subject: [PATCH 05/48] fix: the backtracking filter reads its machines'
 transition tables again

---
 Code/Backtracking_Filter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 95fa922..4c795eb 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -12,6 +12,7 @@ import sys
 from Common import HALT_STATE
 import Halting_Lib
 import IO
+from Macro import Turing_Machine
 
 import io_pb2
 
@@ -19,6 +20,14 @@ import io_pb2
 # Constants
 BACKTRACK = "Backtrack"
 
+def get_ttable(tm):
+  """Transition table as list of rows of (symbol_out, dir_out, state_out)."""
+  return [[(trans.symbol_out, trans.dir_out,
+            trans.state_out if trans.condition == Turing_Machine.RUNNING
+            else HALT_STATE)
+           for trans in row]
+          for row in tm.trans_table]
+
 def get_info(TTable):
   """Finds all halt transitions, transitions that could get to
   each state and all of the single-sided symbols."""
@@ -185,7 +194,7 @@ def backtrack_ttable(TTable, steps, max_width):
 def backtrack(tm_record, num_steps, max_width):
   info = tm_record.proto.filter.backtrack
   with IO.Timer(info.result):
-    TTable = IO.parse_ttable(tm_record.tm().ttable_str())
+    TTable = get_ttable(tm_record.tm())
     # Run the simulator/filter on this machine
     result = backtrack_ttable(TTable, num_steps, max_width)
 
-- 
2.43.0


From 7976be75c872c1c6923c5a9ce2a85b2aadeadaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:23 +0000
Subject: [PATCH 06/48] fix: backtracking never calls a machine infinite that
 halts on its first step

---
 Code/Backtracking_Filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 4c795eb..91c8a31 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -128,6 +128,11 @@ def backtrack_single_halt(halt_state, halt_symbol,
   pos_configs = [Partial_Config(halt_state, halt_symbol)]
   max_width_seen = len(pos_configs)
   num_nodes = 0
+  if is_init_config(pos_configs[0]):
+    # The initial config itself halts.
+    return BacktrackResult(success = False, halted = True,
+                           max_steps = 0, max_width = max_width_seen,
+                           num_nodes = num_nodes)
   for i in range(steps):
     # All configurations that could lead to pos_configs in one step.
     prev_configs = []
-- 
2.43.0


From 957bb4463df10b4c8eef7bf1c8dd51c2e25e2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:24 +0000
Subject: [PATCH 07/48] fix: backtracking answers for machines without halting
 transitions and with no steps

---
 Code/Backtracking_Filter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 91c8a31..cc4c0f4 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -128,6 +128,7 @@ def backtrack_single_halt(halt_state, halt_symbol,
   pos_configs = [Partial_Config(halt_state, halt_symbol)]
   max_width_seen = len(pos_configs)
   num_nodes = 0
+  i = 0
   if is_init_config(pos_configs[0]):
     # The initial config itself halts.
     return BacktrackResult(success = False, halted = True,
@@ -160,7 +161,7 @@ def backtrack_single_halt(halt_state, halt_symbol,
     elif max_width_seen > max_width_allowed:
       break
   return BacktrackResult(success = False, halted = False,
-                         max_steps = i + 1, max_width = max_width_seen,
+                         max_steps = min(i + 1, steps), max_width = max_width_seen,
                          num_nodes = num_nodes)
 
 def backtrack_ttable(TTable, steps, max_width):
@@ -168,7 +169,9 @@ def backtrack_ttable(TTable, steps, max_width):
   giving up if there are more than |max_width| possible configs."""
   # Get initial ttable info.
   halts, to_state, dir_to_symbol = get_info(TTable)
-  combined_result = None
+  # If there are no halting transitions at all, the machine can never halt.
+  combined_result = BacktrackResult(success = True, halted = False,
+                                    max_steps = 0, max_width = 0, num_nodes = 0)
   # See if all halts cannot be reached
   for halt_state, halt_symbol in halts:
     for symbol_out, dir_out, state_out in TTable[halt_state]:
@@ -188,10 +191,7 @@ def backtrack_ttable(TTable, steps, max_width):
     if not result.success:
       return result
 
-    if combined_result:
-      combined_result.merge(result)
-    else:
-      combined_result = result
+    combined_result.merge(result)
 
   # If all halt states cannot be reached, we have succeeded!
   return combined_result
-- 
2.43.0


From 29d1aa340591058fa40bc97f066a8c6161590914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:14 +0000
Subject: [PATCH 08/48] fix: --num-enum with --no-output writes the unfinished
 machines instead of crashing

---
 Code/Enumerate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index d161d41..0b1d638 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -83,7 +83,8 @@ class Enumerator(object):
     """
     while True:
       if self.options.num_enum and self.tm_num >= self.options.num_enum:
-        self.pout.write("Ran requested number of TMs...\n")
+        if self.pout:
+          self.pout.write("Ran requested number of TMs...\n")
         break
 
       # While we have machines to run, pop one off the stack ...
-- 
2.43.0


From 7aaa5b61107fc9772c6699d7d50d4033c8395116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 09/48] fix: machines stored as a list are read back with all
 their transitions

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..fe5c140 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -110,6 +110,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
+      i += 3
   return Turing_Machine.tm_from_quintuples(quints,
                                            states = list(range(tm_list.num_states)),
                                            symbols = list(range(tm_list.num_symbols)))
-- 
2.43.0


From 5c1071746be59164fef03800b16fbbfbfd84a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 10/48] fix: storing a machine as a list leaves the machine in
 memory alone

---
 Code/IO/TM_Record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index fe5c140..a135f15 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -97,8 +97,10 @@ def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> N
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
       if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+        symbol_out = -1
+      else:
+        symbol_out = trans.symbol_out
+      tm_list.ttable_list.append(symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
-- 
2.43.0


From ab04222798f1377e4c27a8e751b81984dd9f9cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 11/48] fix: 8-symbol machines do not fit the packed format and
 are stored as a list

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index a135f15..ce30924 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -129,7 +129,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
-- 
2.43.0


From 9667d6774cb365e3729e5e18da564fb7e1110270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 12/48] fix: halting machines that do not fit the packed format
 are recorded

---
 Code/IO/TM_Record.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index ce30924..3c15071 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -180,7 +180,8 @@ class TM_Record:
     self.tme.set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    self.proto.tm.ClearField("ttable")
+    write_tm(self.tme.tm, self.proto.tm)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From 60c4b52521683830760da5e06d28e1ebc3c2f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 13/48] fix: machines stored as text can be read

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 3c15071..91c5c61 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -122,7 +122,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
-- 
2.43.0


From 86bd4e402023aa7e0621f3d4f0260f2f63a5b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:16 +0000
Subject: [PATCH 14/48] fix: a record remembers that its enumeration allows
 machines without a halt

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 91c5c61..2cd5b2c 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -153,6 +153,7 @@ class TM_Record:
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = tm_enum.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From dd678784744201b4207b389e10259b5cf1d3cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:29 +0000
Subject: [PATCH 15/48] fix: lr_enum honours only_unknown when built without
 Boost

---
 cpp/src/lin_recur_enumerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..42c5db8 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -35,6 +35,8 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     max_steps_(max_steps),
     proc_id_(proc_id)
 {
+  only_unknown = only_unknown_in;
+
 #ifdef BOOST_FOUND
   std::string file_suffix = "";
 
@@ -42,8 +44,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From a5be49624823687319dafe49ac2c9d7cb75838ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:36 +0000
Subject: [PATCH 16/48] fix: the distributed queue's batch sizes are whole
 numbers

---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From d770613379fdd0e75bb645377ebca45ce2541027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 17/48] fix: open compressed text files in text mode

gzip's "w" and "r" are binary modes, so writing or reading a .txt.gz
raised a TypeError.
---
 Code/IO/StdText.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From 45dbd7c5305207c7c145f6be439a5bb5e02b2d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 18/48] fix: open compressed Morphett files in text mode

---
 Code/IO/Morphett.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From fcf47d838bf1bed9a25f74026cbac2104d368c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 19/48] fix: writing a machine in Morphett format leaves the
 machine unchanged

---
 Code/IO/Morphett.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 9a9f15f..17d90b2 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -33,7 +33,7 @@ class Writer:
   def write_record(self, tm_record : TM_Record) -> None:
     tm = tm_record.tm()
     # Morphett uses _ for blank symbol.
-    tm.symbols[0] = "_"
+    symbols = ["_"] + list(tm.symbols[1:])
     for state_in in range(tm.num_states):
       for symbol_in in range(tm.num_symbols):
         trans = tm.get_trans_object(symbol_in, state_in)
@@ -43,8 +43,8 @@ class Writer:
           else:
             state_out = tm.states[trans.state_out]
           # Write out one quintuple per line.
-          print(tm.states[state_in], tm.symbols[symbol_in],
-                tm.symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
+          print(tm.states[state_in], symbols[symbol_in],
+                symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
                 file=self.outfile)
 
   def flush(self):
-- 
2.43.0


From c42a9b3b691b0d64a98edcdff05f97c8979676d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 20/48] fix: Morphett reader accepts states and symbols which
 are only ever targets

Such machines (all of whose transitions out of a state are undefined) are
written by our own Writer but raised a ValueError when read.
---
 Code/IO/Morphett.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 17d90b2..7e36c29 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -87,6 +87,12 @@ class Reader:
           states.append(state_in)
         if symbol_in not in symbols:
           symbols.append(symbol_in)
+    # States and symbols without any transition of their own.
+    for (_, _, symbol_out, _, state_out) in quints:
+      if state_out != -1 and state_out not in states:
+        states.append(state_out)
+      if symbol_out not in symbols:
+        symbols.append(symbol_out)
     tm = Turing_Machine.tm_from_quintuples(quints, states, symbols)
     tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt = False)
     tm_record = TM_Record.TM_Record(tm_enum = tm_enum)
-- 
2.43.0


From 32a9bad95cc3ba169b5b43d15f50cc668ba0e56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 21/48] fix: BBC skip_record reports whether a record was
 skipped

seek() returns the absolute position, which never equals the size of one
record after the header.
---
 Code/IO/BBC.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index a08720b..c58fa14 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -107,9 +107,7 @@ class Reader:
 
   def skip_record(self) -> bool:
     """Skip ahead 1 record. Return False if no records left in file."""
-    # whence = 1 means (from current position).
-    pb_bytes = self.infile.seek(_BYTES_PER_RECORD, 1)
-    return pb_bytes == _BYTES_PER_RECORD
+    return len(self.infile.read(_BYTES_PER_RECORD)) == _BYTES_PER_RECORD
 
   def get_tm(self, tm_num) -> TM_Record:
     # whence = 0 means (from the start).
-- 
2.43.0


From 3e9f8643c94bfcc97e8ac2942c9accbe7c5356bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 22/48] fix: BBC index readers can be used in a with statement

__enter__ returned None so IO_Convert could not read index files.
---
 Code/IO/BBC.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index c58fa14..4358497 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -145,9 +145,10 @@ class IndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "rb")
+    return self
 
   def __exit__(self, *args):
-    self.db_reader.__exit__(args)
+    self.db_reader.__exit__(*args)
     self.index_file.close()
 
 
@@ -162,7 +163,7 @@ class IndexReader:
         return
       elif len(n_bytes) != 4:
         raise IO_Error("Unexpected EOF while reading block "
-                       f"(expected 4 bytes, got {len(len_bytes)}).")
+                       f"(expected 4 bytes, got {len(n_bytes)}).")
       # Big Endian (>), 4 bytes (L).
       yield struct.unpack(">L", n_bytes)[0]
 
@@ -176,9 +177,10 @@ class TextIndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "r")
+    return self
 
   def __exit__(self, *args):
-    self.db_reader.__exit__(args)
+    self.db_reader.__exit__(*args)
     self.index_file.close()
 
 
-- 
2.43.0


From 967248e3e64f25da06dbddbbc8f0edded6bf9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 23/48] fix: skipping a cut-off record reports the unexpected
 EOF

Seeking past the end succeeds silently, so IO_Count counted the last record
of a truncated file as if it was there.
---
 Code/IO/Proto.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/IO/Proto.py b/Code/IO/Proto.py
index 9f0317a..79f3bd2 100644
--- a/Code/IO/Proto.py
+++ b/Code/IO/Proto.py
@@ -108,7 +108,10 @@ class Reader:
     pb_len = self._read_message_len()
     if pb_len != None:
       # Skip ahead pb_len bytes.
-      pb_bytes = self.infile.seek(pb_len, 1)
+      pb_bytes = self.infile.read(pb_len)
+      if len(pb_bytes) != pb_len:
+        raise IO_Error("Unexpected EOF while skipping data block "
+                       f"(expected {pb_len}, got {len(pb_bytes)})")
       return True
     return False
 
-- 
2.43.0


From 3901f0a0dbc5e4eb97c2069a5860244581e1f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:19 +0000
Subject: [PATCH 24/48] fix: old text writer handles all machines and reasons

Machines decided by the backtracking or CPS filter raised a KeyError, ones
whose simulation threw an exception raised an Exception and machines not
stored in packed form were read from an empty field.
---
 Code/IO/OldText.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Code/IO/OldText.py b/Code/IO/OldText.py
index 8865f50..19fa457 100644
--- a/Code/IO/OldText.py
+++ b/Code/IO/OldText.py
@@ -30,6 +30,8 @@ inf_reason2str = {
   io_pb2.INF_REVERSE_ENGINEER: "Reverse_Engineer",
   io_pb2.INF_LIN_RECUR: "Lin_Recur",
   io_pb2.INF_CTL: "CTL",
+  io_pb2.INF_BACKTRACK: "Backtrack",
+  io_pb2.INF_CLOSED_GRAPH: "Closed_Graph",
 }
 str2inf_reason = {s: inf_reason for (inf_reason, s) in inf_reason2str.items()}
 
@@ -118,7 +120,7 @@ class ReaderWriter(object):
     io_record = Record()
     if self.log_number is not None:
       io_record.log_number = self.log_number
-    io_record.tm = TM_Record.unpack_tm(tm_record.proto.tm.ttable_packed)
+    io_record.tm = tm_record.tm()
 
     if tm_record.is_unknown_halting():
       io_record.category = Exit_Condition.UNKNOWN
@@ -141,6 +143,9 @@ class ReaderWriter(object):
       elif unk_reason == "over_steps_in_macro":
         reason = Exit_Condition.OVER_STEPS_IN_MACRO
         args = ()
+      elif unk_reason == "threw_exception":
+        reason = Exit_Condition.ERROR
+        args = ()
       else:
         raise Exception(unknown_info)
 
-- 
2.43.0


From 5f1d6762fb21ef47ae0bab9798d2c70ace2b4db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:51 +0000
Subject: [PATCH 25/48] fix: BBC skip_record reports a cut-off record

---
 Code/IO/BBC.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index 4358497..96f8f49 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -107,7 +107,11 @@ class Reader:
 
   def skip_record(self) -> bool:
     """Skip ahead 1 record. Return False if no records left in file."""
-    return len(self.infile.read(_BYTES_PER_RECORD)) == _BYTES_PER_RECORD
+    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
+    if tm_bytes and len(tm_bytes) != _BYTES_PER_RECORD:
+      raise IO_Error("Unexpected EOF while skipping data block "
+                     f"(expected {_BYTES_PER_RECORD}, got {len(tm_bytes)})")
+    return bool(tm_bytes)
 
   def get_tm(self, tm_num) -> TM_Record:
     # whence = 0 means (from the start).
-- 
2.43.0


From 64a232740957b5314db0afec5523b761fa54623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:14 +0000
Subject: [PATCH 26/48] fix: an ExpInt exponent which evaluates to 0 is not a
 huge number

b^(x - x') with an exponent that is an ExpInt of value 0 was given tower
value (1, 0) and so compared greater than any integer.
---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e412781..139925b 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -160,7 +160,7 @@ class ExpTerm:
     if self.is_const:
       exp_as_int = try_eval(self.exponent)
 
-      if not exp_as_int:
+      if exp_as_int is None:
         assert isinstance(self.exponent, ExpInt), self.exponent
         # For large enough exponent, the coeficient and even base don't have much effect.
         (height, top) = self.exponent.tower_value
-- 
2.43.0


From b5f9067c0dcd79530cf3a655e9b981d081a17787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:14 +0000
Subject: [PATCH 27/48] fix: division of ExpInts by negative integers

The sign meant to make the denominator positive was lost when taking the
gcd with the coefficients, so the assertion failed.
---
 Code/Exp_Int.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 139925b..10334f5 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -284,7 +284,8 @@ class ExpInt:
     assert isinstance(common, int), (common, repr(self.denom))
     if common != 1:
       for term in self.terms:
-        common = gcd(common, term.coef)
+        # gcd() is always positive, keep the sign of the denominator.
+        common = gcd(common, term.coef) * sign(self.denom)
         assert isinstance(common, int), (common, repr(term.coef))
     if common != 1:
       self.const //= common
-- 
2.43.0


From 991c2366dce3cce444afc96bac684996cbfcf740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:14 +0000
Subject: [PATCH 28/48] fix: remainder of powers whose exponent is a small
 ExpInt

pow() raised a TypeError for ExpInt exponents below the cycle length.
---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 10334f5..089f22b 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -202,7 +202,7 @@ class ExpTerm:
     return new_coef * exp_int(self.base, new_exp)
 
   def mod(self, m : int) -> int:
-    return (exp_mod(self.base, self.exponent, m) * self.coef) % m
+    return (exp_mod(self.base, try_simplify(self.exponent), m) * self.coef) % m
 
   def mul_int(self, n : int):
     assert isinstance(n, int), n
-- 
2.43.0


From a146b2a14533cff0af6f8ca7eeb18747dc5c5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:10 +0000
Subject: [PATCH 29/48] fix: compare ExpInts and plain integers of different
 tower heights by magnitude

---
 Code/Exp_Int.py | 46 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 089f22b..0948c66 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -1,6 +1,7 @@
 """Library for representing very large integers of the form: a b^n + c"""
 
 from fractions import Fraction
+import functools
 import math
 
 from Algebraic_Expression import Expression, min_val, variables, substitute
@@ -109,6 +110,22 @@ def tower_value(x):
   else:
     return (0, abs(x))
 
+def tower_cmp(a, b):
+  """Compare two tower values: -1 if a < b, 0 if a = b, 1 if a > b."""
+  (height_a, top_a) = a
+  (height_b, top_b) = b
+  # The top can be larger than 10, so towers are only comparable at equal height:
+  #   10^^height[^top] = 10^^(height+1)[^log(top)]
+  while height_a < height_b:
+    top_a = math.log10(top_a) if top_a > 0 else -math.inf
+    height_a += 1
+  while height_b < height_a:
+    top_b = math.log10(top_b) if top_b > 0 else -math.inf
+    height_b += 1
+  return (top_a > top_b) - (top_a < top_b)
+
+tower_key = functools.cmp_to_key(tower_cmp)
+
 def sign(x):
   if isinstance(x, ExpInt):
     return x.sign
@@ -306,22 +323,29 @@ class ExpInt:
 
       else:
         # At least one term is too large to fit in an `int`.
-        max_pos_tower = max((term.tower_value for term in self.terms
-                             if term.sign > 0), default = tower_value(0))
-        max_neg_tower = max((term.tower_value for term in self.terms
-                             if term.sign < 0), default = tower_value(0))
-        if max_pos_tower == max_neg_tower:
+        signed_towers = [(term.sign, term.tower_value) for term in self.terms]
+        signed_towers.append((sign(self.const), tower_value(self.const)))
+        max_pos_tower = max((tower for (sgn, tower) in signed_towers if sgn > 0),
+                            key = tower_key, default = tower_value(0))
+        max_neg_tower = max((tower for (sgn, tower) in signed_towers if sgn < 0),
+                            key = tower_key, default = tower_value(0))
+        order = tower_cmp(max_pos_tower, max_neg_tower)
+        if order == 0:
           raise ExpIntException(f"Cannot evalulate sign of ExpInt: {self}    ({max_pos_tower} == {max_neg_tower})")
-        self.tower_value = max(max_pos_tower, max_neg_tower)
-        if max_neg_tower > max_pos_tower:
+        if order < 0:
           self.sign = -1
+          self.tower_value = max_neg_tower
         else:
           self.sign = 1
+          self.tower_value = max_pos_tower
+
+        (height, top) = self.tower_value
+        if height == 0:
+          # The largest one fits in an `int`, but the sum is not known percisely.
+          (height, top) = self.tower_value = (1, math.log10(top))
 
         # Tweak tower value for denom
         if self.denom != 1:
-          (height, top) = self.tower_value
-          assert height >= 1, self
           if height == 1:
             top = prec_add(top, -math.log10(self.denom))
             self.tower_value = (height, top)
@@ -478,7 +502,7 @@ class ExpInt:
       # self > 0 > other
       return True
 
-    return self.tower_value > tower_value(other)
+    return tower_cmp(self.tower_value, tower_value(other)) > 0
 
   def __ge__(self, other):
     assert is_const(self), self
@@ -493,7 +517,7 @@ class ExpInt:
       # self > 0 > other
       return True
 
-    return self.tower_value >= tower_value(other)
+    return tower_cmp(self.tower_value, tower_value(other)) >= 0
 
   # Boilerplate
   def __neg__(self):
-- 
2.43.0


From f7e6188631397decd8f9609ea3bc90a9e938617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 30/48] fix: lower bounds and variables of symbolic ExpInts

---
 Code/Exp_Int.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 0948c66..2048d8e 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -208,12 +208,16 @@ class ExpTerm:
       self.vars = variables(self.coef) | variables(self.exponent)
 
   def min_val(self):
+    if self.is_const:
+      return ExpInt([self], const = 0, denom = 1)
     return self.min_value
   def variables(self):
+    if self.is_const:
+      return frozenset()
     return self.vars
   def substitute(self, assignment):
     if self.is_const:
-      return self
+      return ExpInt([self], const = 0, denom = 1)
     new_coef = substitute(self.coef, assignment)
     new_exp = substitute(self.exponent, assignment)
     return new_coef * exp_int(self.base, new_exp)
@@ -352,16 +356,19 @@ class ExpInt:
 
     else:  # not self.is_const
       assert is_const(self.denom), self
-      min_terms = [term.min_value for term in self.terms]
+      min_terms = [term.min_val() for term in self.terms]
       if -math.inf in min_terms:
         self.min_value = -math.inf
       else:
-        min_terms = sum(min_terms)
-        self.min_value = (min_terms + min_val(self.const)) / self.denom
+        min_numer = sum(min_terms) + min_val(self.const)
+        if isinstance(min_numer, int):
+          self.min_value = min_numer // self.denom
+        else:
+          self.min_value = min_numer / self.denom
         assert isinstance(self.min_value, (ExpInt, int)), self
       self.vars = set(variables(self.const) | variables(self.denom))
       for term in self.terms:
-        self.vars.update(term.vars)
+        self.vars.update(term.variables())
       self.vars = frozenset(self.vars)
 
   def min_val(self):
-- 
2.43.0


From 7f14727385686da08bab01febdaa46bbceb33e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 31/48] fix: substituting into a symbolic ExpInt divides
 exactly

---
 Code/Exp_Int.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 2048d8e..7f84e6a 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -4,7 +4,7 @@ from fractions import Fraction
 import functools
 import math
 
-from Algebraic_Expression import Expression, min_val, variables, substitute
+from Algebraic_Expression import Expression, div, min_val, variables, substitute
 from Common import is_const
 from Math import gcd, lcm, int_pow, exp_mod, prec_mult, prec_add
 
@@ -380,7 +380,7 @@ class ExpInt:
       return self
     numer = sum(term.substitute(assignment) for term in self.terms)
     numer += substitute(self.const, assignment)
-    return numer / substitute(self.denom, assignment)
+    return div(numer, substitute(self.denom, assignment))
 
   def tex_formula(self):
     return tex_formula(self)
-- 
2.43.0


From 0d26c6741e3c9f0303fde546eb48e334a0470d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:03 +0000
Subject: [PATCH 32/48] fix: Pow_Func.compute_min always makes progress

---
 Code/Macro/Rule_Func.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index c7cca12..63eee7a 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -134,4 +134,4 @@ class Pow_Func(Func):
           return min
         else:
           # TODO: Add tests that actually use this logic.
-          min = math.ceil(x_bound)
+          min = max(min + 1, math.ceil(x_bound))
-- 
2.43.0


From bec2c3f6d616b51c57e45a16567f4facc61970a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:22 +0000
Subject: [PATCH 33/48] fix: Mult_Func.apply_rep starting at a fixed point

---
 Code/Macro/Rule_Func.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index 63eee7a..e19bde8 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -4,7 +4,7 @@ Func types used by Rules in Proof_System.
 
 import math
 
-from Algebraic_Expression import Expression, VariableToExpression
+from Algebraic_Expression import Expression, VariableToExpression, div
 from Exp_Int import ExpInt, exp_int
 
 
@@ -91,8 +91,9 @@ class Mult_Func(Func):
     # be very large!
     m_n = exp_int(base = self.coef, exponent = num_reps)
     numer = ((a*m + self.const) * m_n - self.const)
-    assert isinstance(numer, (ExpInt, Expression)), numer
-    return numer / m
+    # Note: numer is an `int` if `start` is a fixed point (a m + c = 0).
+    assert isinstance(numer, (int, ExpInt, Expression)), numer
+    return div(numer, m)
 
 
 class Pow_Func(Func):
-- 
2.43.0


From edb89379a4c898848582503fac4acb0e45381470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:12 +0000
Subject: [PATCH 34/48] fix: series_sum of cubes and of terms with fractional
 coefficients

---
 Code/Macro/Proof_System.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..6fc1bff 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -12,7 +12,7 @@ from optparse import OptionParser, OptionGroup
 import sys
 
 import Algebraic_Expression as ae
-from Algebraic_Expression import Expression, Variable, NewVariableExpression, VariableToExpression, ConstantToExpression, VarPlusConstExpression, Term, always_ge, is_const, variables, substitute
+from Algebraic_Expression import Expression, Variable, NewVariableExpression, VariableToExpression, ConstantToExpression, VarPlusConstExpression, Term, always_ge, is_const, simp_frac, variables, substitute
 import Exp_Int
 from Exp_Int import ExpInt
 import Halting_Lib
@@ -1470,14 +1470,15 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
       total += rest * N
     elif k_pow == 1:
       # sum_{k=0}^{N-1}(coef * k) = coef * N(N-1)/2
-      total += (rest * N * (N - 1)) // 2
+      total += rest * ((N * (N - 1)) // 2)
     elif k_pow == 2:
       # sum_{k=0}^{N-1}(coef * k^2) = coef * N(N-1)(2N-1)/6
-      total += (rest * N * (N - 1) * (2 * N - 1)) // 6
+      total += rest * ((N * (N - 1) * (2 * N - 1)) // 6)
     elif k_pow == 3:
       # sum_{k=0}^{N-1}(coef * k^3) = coef * (N(N-1)/2)^2
       # https://proofwiki.org/wiki/Sum_of_Sequence_of_Cubes
-      total += ((rest * N * (N - 1)) // 2)**2
+      half = (N * (N - 1)) // 2
+      total += rest * half * half
     else:
       raise NotImplementedError(f"Cannot series sum {term} over {k}")
-  return total
+  return simp_frac(total)
-- 
2.43.0


From e55b510b873336140925a5830b33de82b2303230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:09 +0000
Subject: [PATCH 35/48] fix: products of symbolic ExpInts

---
 Code/Exp_Int.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 7f84e6a..1c3be4a 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -56,6 +56,8 @@ def is_simple(value):
 def try_eval(x):
   """Return integer value (if it's small enough) or None (if too big)."""
   if isinstance(x, (ExpInt, ExpTerm)):
+    if not x.is_const:
+      return None
     (height, top) = x.tower_value
     assert top >= 0, (top, x.formula_str)
     if height == 0:
-- 
2.43.0


From 2e2f6abedd6f7cd8a8ebb1dcff0792b818f2e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:22 +0000
Subject: [PATCH 36/48] fix: TNF numbers symbols in the order in which they are
 first written

---
 Code/TNF.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Code/TNF.py b/Code/TNF.py
index 777d178..642d608 100755
--- a/Code/TNF.py
+++ b/Code/TNF.py
@@ -65,15 +65,16 @@ def to_TNF(tm : Turing_Machine.Simple_Machine, max_steps : int) -> Turing_Machin
     if sim.step_num > max_steps or sim.halted:
       return None
 
+    # In TNF symbols are numbered in the order in which they are first written.
+    written_symb = tm.get_trans_object(sim.tape.read(), sim.state).symbol_out
     sim.step()
 
     if sim.state in unordered_states:
       state_order.append(sim.state)
       unordered_states.remove(sim.state)
-    cur_symb = sim.tape.read()
-    if cur_symb in unordered_symbols:
-      symbol_order.append(cur_symb)
-      unordered_symbols.remove(cur_symb)
+    if written_symb in unordered_symbols:
+      symbol_order.append(written_symb)
+      unordered_symbols.remove(written_symb)
 
     if len(unordered_states) == 1:
       state_order.append(unordered_states.pop())
-- 
2.43.0


From e04fba13da0e932a56c9c1d5f9c6056d668eb7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:22 +0000
Subject: [PATCH 37/48] fix: LNF considers both directions for every
 permutation

---
 Code/LNF.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/Code/LNF.py b/Code/LNF.py
index bc53e52..fb7c5f6 100644
--- a/Code/LNF.py
+++ b/Code/LNF.py
@@ -10,17 +10,15 @@ from Macro import Turing_Machine
 import TNF
 
 
-def permute(old_tm, state_order, symbol_order):
-  # L < R
-  swap_dirs = (old_tm.trans_table[state_order[0]][0].dir_out == Turing_Machine.RIGHT)
+def permute(old_tm, state_order, symbol_order, swap_dirs):
   perm_tm = TNF.permute_table(old_tm, state_order, symbol_order, swap_dirs)
 
-  # Find new state number corresponding to start state (old 0) and symbol.
-  new_start_state = state_order.index(0)
+  # Find new state number corresponding to start state and symbol.
+  new_start_state = state_order.index(old_tm.init_state)
   assert new_start_state != -1, state_order
   perm_tm.init_state = Turing_Machine.Simple_Machine_State(new_start_state)
 
-  new_start_symb = symbol_order.index(0)
+  new_start_symb = symbol_order.index(old_tm.init_symbol)
   assert new_start_symb != -1, symbol_order
   perm_tm.init_symbol = new_start_symb
 
@@ -42,12 +40,13 @@ def brute_lnf(old_tm):
   best_tm = old_tm
   for state_order in iter_perms(list(range(old_tm.num_states))):
     for symbol_order in iter_perms(list(range(old_tm.num_symbols))):
-      perm_tm = permute(old_tm, state_order, symbol_order)
-      perm_str = perm_tm.ttable_str()
-      # print(f" Debug: {state_order} / {perm_str}")
-      if perm_str < best_str:
-        best_str = perm_str
-        best_tm = perm_tm
+      for swap_dirs in (False, True):
+        perm_tm = permute(old_tm, state_order, symbol_order, swap_dirs)
+        perm_str = perm_tm.ttable_str()
+        # print(f" Debug: {state_order} / {perm_str}")
+        if perm_str < best_str:
+          best_str = perm_str
+          best_tm = perm_tm
   return best_tm
 
 
-- 
2.43.0


From 139fe3b03fd78ffa7fefc7e1088ce6a036d6086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 38/48] fix: backtracking that fails leaves the quasihalting
 verdict alone

---
 Code/Backtracking_Filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index cc4c0f4..3d0812e 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -209,11 +209,11 @@ def backtrack(tm_record, num_steps, max_width):
     info.result.max_steps = result.max_steps
     info.result.max_width = result.max_width
     info.result.num_nodes = result.num_nodes
-    # Note: quasihalting result is not computed when using Backtracking filter.
-    tm_record.proto.status.quasihalt_status.is_decided = False
     if result.success:
       assert not result.halted
       Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_BACKTRACK)
+      # Note: quasihalting result is not computed when using Backtracking filter.
+      tm_record.proto.status.quasihalt_status.is_decided = False
       return True
   return False
 
-- 
2.43.0


From 80340d8d1396aceb0a057879f11a7ffdc73fce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 39/48] fix: IO_Sample reports the number of records it scanned

---
 Code/IO_Sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO_Sample.py b/Code/IO_Sample.py
index c4e725d..4e87253 100755
--- a/Code/IO_Sample.py
+++ b/Code/IO_Sample.py
@@ -11,7 +11,7 @@ import IO
 
 
 def sample(in_filenames, out_filename, sample_size):
-  num_records = 1
+  num_records = 0
   num_read = 0
   sample = []
   for in_filename in in_filenames:
@@ -23,7 +23,7 @@ def sample(in_filenames, out_filename, sample_size):
               break
             num_read += 1
             sample.append(tm_record)
-          elif random.random() < sample_size / num_records:
+          elif random.random() < sample_size / (num_records + 1):
             # Replace one of the existing sampled TMs with decreasing chance.
             if not (tm_record := reader.read_record()):
               break
-- 
2.43.0


From 5a1e5257bbe1f3872f3532b20d0887314a0f7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 40/48] fix: TM_Analyze on files without simulation results

---
 Code/TM_Analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/TM_Analyze.py b/Code/TM_Analyze.py
index 389860f..3a8555e 100755
--- a/Code/TM_Analyze.py
+++ b/Code/TM_Analyze.py
@@ -217,7 +217,7 @@ class TMStats:
     print(f"  - num_loops         : Mean {self.sim_num_loops.mean():9_.0f}  Max {self.sim_num_loops.max_value:9_d}")
     # self.print_hist(self.sim_num_loops.log_hist)
     # print()
-    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_d}")
+    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_}")
     print(f"  - num_rules_proven  : Mean {self.sim_num_rules_proven.mean():9_.0f}  Max {self.sim_num_rules_proven.max_value:9_d}  (Set in {self.sim_num_rules_proven.count / self.count:7.2%})")
     print(f"  - num_linear_rules  : Mean {self.sim_num_linear_rules_proven.mean():9_.0f}  Max {self.sim_num_linear_rules_proven.max_value:9_d}  (Set in {self.sim_num_linear_rules_proven.count / self.count:7.2%})")
     print(f"  - num_exponential_rules  : Mean {self.sim_num_exponential_rules_proven.mean():9_.0f}  Max {self.sim_num_exponential_rules_proven.max_value:9_d}  (Set in {self.sim_num_exponential_rules_proven.count / self.count:7.2%})")
-- 
2.43.0


From 4a741955e22d465d8b7a6502780dbc1517ba3446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 41/48] fix: old text writer handles big and unknown numbers

---
 Code/IO/OldText.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/IO/OldText.py b/Code/IO/OldText.py
index 19fa457..80d0e7a 100644
--- a/Code/IO/OldText.py
+++ b/Code/IO/OldText.py
@@ -13,6 +13,7 @@ import string
 import sys
 
 from Common import Exit_Condition
+import Exp_Int
 import Halting_Lib
 import IO
 from IO import TM_Record
@@ -93,10 +94,12 @@ class Record(object):
       # everything as strings.
       #assert obj[0] not in string.digits
       return obj
+    elif obj is None:
+      return "N/A"
     else:
-      assert isinstance(obj, (int, float)), \
+      assert isinstance(obj, (int, float, Exp_Int.ExpInt)), \
           "Object %r is invalid type %s" % (obj, type(obj))
-      return str(obj)
+      return str(obj).replace(" ", "")
 
 
 class ReaderWriter(object):
-- 
2.43.0


From 34b8f460783c14ad08408930e1d1ff9d0363e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:50 +0000
Subject: [PATCH 42/48] fix: sign and size of exponential numbers whose terms
 are close

---
 Code/Exp_Int.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 1c3be4a..a2e48df 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -329,7 +329,21 @@ class ExpInt:
 
       else:
         # At least one term is too large to fit in an `int`.
-        signed_towers = [(term.sign, term.tower_value) for term in self.terms]
+        exponents = [try_eval(term.exponent) for term in self.terms]
+        if (None not in exponents and
+            max(exponents) - min(exponents) < EXP_THRESHOLD):
+          # The terms are close enough that no single one of them has to dominate
+          # the others. Sum them percisely: sum(terms) = total * base^low
+          low = min(exponents)
+          base = self.terms[0].base
+          total = sum(term.coef * base**(exponent - low)
+                      for (term, exponent) in zip(self.terms, exponents))
+          top = prec_mult(low, math.log10(base))
+          if total:
+            top = prec_add(top, math.log10(abs(total)))
+          signed_towers = [(sign(total), (1, top))]
+        else:
+          signed_towers = [(term.sign, term.tower_value) for term in self.terms]
         signed_towers.append((sign(self.const), tower_value(self.const)))
         max_pos_tower = max((tower for (sgn, tower) in signed_towers if sgn > 0),
                             key = tower_key, default = tower_value(0))
-- 
2.43.0


From bf296eca3fc9006a69438b76b330b034517cab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:12 +0000
Subject: [PATCH 43/48] fix: the time limit's alarm is cancelled when an
 analysis raises an error

---
 Code/Macro_Simulator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index 25d2702..a24a3cd 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -69,6 +69,11 @@ def run_timer(tm_record : TM_Record, options,
     tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
       time.time() - start_time)
 
+  except Exception:
+    # Do not leave the alarm to go off later, outside of this analysis.
+    Alarm.ALARM.cancel_alarm()
+    raise
+
 def run_options(tm_record : TM_Record, options) -> None:
   """Run the Accelerated Turing Machine Simulator, running a few simple filters
   first and using intelligent blockfinding."""
-- 
2.43.0


From ead9e50fa740a86768776ff798df854910b242f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:20 +0000
Subject: [PATCH 44/48] fix: filter scripts compare file sizes as numbers, not
 as text

---
 Tools/filter.sh              | 2 +-
 Tools/sbatch_filter_setup.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Tools/filter.sh b/Tools/filter.sh
index ee139aa..6507fc0 100755
--- a/Tools/filter.sh
+++ b/Tools/filter.sh
@@ -37,6 +37,6 @@ cp ${WORK_DIR}/unknown.pb ${ROOT_DIR}/unknown.pb
 # Human readable stuff
 time ${TOOLS_DIR}/../Code/TM_Analyze.py ${WORK_DIR}/out.pb
 # Only convert to text if it's reasonably small.
-if [[ "$(wc -c < ${ROOT_DIR}/unknown.pb)" < 1000000 ]]; then
+if (( $(wc -c < ${ROOT_DIR}/unknown.pb) < 1000000 )); then
   ${TOOLS_DIR}/../Code/IO_Convert.py ${ROOT_DIR}/unknown.{pb,txt}
 fi
diff --git a/Tools/sbatch_filter_setup.sh b/Tools/sbatch_filter_setup.sh
index e1de59c..e9ddf82 100644
--- a/Tools/sbatch_filter_setup.sh
+++ b/Tools/sbatch_filter_setup.sh
@@ -22,7 +22,7 @@ rm -rf ${WORK_DIR}
 mkdir -p ${WORK_DIR}/split/in/ ${WORK_DIR}/logs/
 
 # Pull in holdouts from previous filter (skip this copy if holdouts file is too large).
-if [[ "$(wc -c < ${ROOT_DIR}/unknown.txt)" < 10000000000 ]]; then
+if (( $(wc -c < ${ROOT_DIR}/unknown.txt) < 10000000000 )); then
   cp ${ROOT_DIR}/unknown.txt ${WORK_DIR}/in.txt
 fi
 
-- 
2.43.0


From dcbe72cbacf7b571d9423a4faf5457e2de486f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:20 +0000
Subject: [PATCH 45/48] fix: combining filter shards keeps the machines that
 halt after an unknown number of steps

---
 Tools/sbatch_filter_finish.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/sbatch_filter_finish.sh b/Tools/sbatch_filter_finish.sh
index c41f8e8..44ffa12 100644
--- a/Tools/sbatch_filter_finish.sh
+++ b/Tools/sbatch_filter_finish.sh
@@ -31,7 +31,7 @@ fi
 cat ${WORK_DIR}/split/0*/unknown.txt > ${ROOT_DIR}/unknown.txt
 
 # Combine outputs
-for x in halt.{small,large}.pb unknown.pb qhalt.{small,large}.pb infinite.pb; do
+for x in halt.{small,large,unk}.pb unknown.pb qhalt.{small,large,unk}.pb infinite.pb; do
   cat ${WORK_DIR}/split/0*/${x} > ${WORK_DIR}/${x}
 done
 
-- 
2.43.0


From 5224b1d50c507ea49232bb5b0bcffe43c815c655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:20 +0000
Subject: [PATCH 46/48] fix: venn_diff accepts a common line that occurs twice
 in the right file

---
 Tools/venn_diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/venn_diff.py b/Tools/venn_diff.py
index f2e32a7..2994360 100755
--- a/Tools/venn_diff.py
+++ b/Tools/venn_diff.py
@@ -20,7 +20,7 @@ def venn_diff(in_left, in_right, out_inter, out_lonly, out_ronly):
   for line in in_right:
     if line in left_all:
       # Line is in both left and right
-      left_only.remove(line)
+      left_only.discard(line)
       out_inter.write(line)
 
     else:
-- 
2.43.0


From a9f0813d1df64fcc8f45f7d27ad6f4be312e123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:24 +0000
Subject: [PATCH 47/48] fix: parallel enumeration scripts fail when one of the
 parts failed

---
 cpp/scripts/lb_enum_local_parallel.sh          | 11 ++++++++++-
 cpp/scripts/lr_enum_local_parallel.sh          | 11 ++++++++++-
 cpp/scripts/lr_enum_local_parallel_dev_null.sh | 11 ++++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/cpp/scripts/lb_enum_local_parallel.sh b/cpp/scripts/lb_enum_local_parallel.sh
index c3c69c1..c4a450b 100755
--- a/cpp/scripts/lb_enum_local_parallel.sh
+++ b/cpp/scripts/lb_enum_local_parallel.sh
@@ -32,12 +32,21 @@ python3 scripts/shuffle_split.py ${DATA_DIR}/tms_init $NUM_PROCESSES
 echo
 date
 echo "(3) Continue enumeration on each chunk as a separate process in parallel."
+PIDS=""
 for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
   INPUT_TMS=${DATA_DIR}/tms_init.part_${chunk_num}_of_${NUM_PROCESSES}
   ./lb_enum_continue $INPUT_TMS $MAX_STEPS ${DATA_DIR}/steps_part_${chunk_num}_of_${NUM_PROCESSES} ${chunk_num} &
+  PIDS="${PIDS} $!"
 done
 echo "Waiting for all the enumerations to complete."
-wait
+FAILED=0
+for pid in ${PIDS}; do
+  wait ${pid} || FAILED=1
+done
+if [ ${FAILED} -ne 0 ]; then
+  echo "Failure: not all of the enumerations completed." 1>&2
+  exit 1
+fi
 
 echo
 date
diff --git a/cpp/scripts/lr_enum_local_parallel.sh b/cpp/scripts/lr_enum_local_parallel.sh
index 4d3d848..8303a98 100755
--- a/cpp/scripts/lr_enum_local_parallel.sh
+++ b/cpp/scripts/lr_enum_local_parallel.sh
@@ -54,6 +54,7 @@ python3 scripts/shuffle_split.py ${DATA_DIR}/unknown_init.txt $NUM_PROCESSES
 echo
 date
 echo "(3) Continue enumeration on each chunk as a separate process in parallel."
+PIDS=""
 for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
   ./lr_enum_continue \
     ${DATA_DIR}/unknown_init.txt.part_${chunk_num}_of_${NUM_PROCESSES} \
@@ -65,9 +66,17 @@ for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
     ${ALLOW_NO_HALT} \
     ${COMPRESS_OUTPUT} \
     ${ONLY_UNKNOWN} &
+  PIDS="${PIDS} $!"
 done
 echo "Waiting for all the enumerations to complete."
-wait
+FAILED=0
+for pid in ${PIDS}; do
+  wait ${pid} || FAILED=1
+done
+if [ ${FAILED} -ne 0 ]; then
+  echo "Failure: not all of the enumerations completed." 1>&2
+  exit 1
+fi
 
 if [ "${COMPRESS_OUTPUT}" = "true" ]; then
   gzip ${DATA_DIR}/*_init*txt*
diff --git a/cpp/scripts/lr_enum_local_parallel_dev_null.sh b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
index 33d25c3..12dde2c 100755
--- a/cpp/scripts/lr_enum_local_parallel_dev_null.sh
+++ b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
@@ -45,6 +45,7 @@ python3 scripts/shuffle_split.py ${DATA_DIR}/unknown_init.txt $NUM_PROCESSES
 echo
 date
 echo "(3) Continue enumeration on each chunk as a separate process in parallel."
+PIDS=""
 for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
   ./lr_enum_continue \
     ${DATA_DIR}/unknown_init.txt.part_${chunk_num}_of_${NUM_PROCESSES} \
@@ -55,9 +56,17 @@ for chunk_num in $(seq 0 $((NUM_PROCESSES - 1))); do
     ${chunk_num} \
     ${ALLOW_NO_HALT} \
     ${COMPRESS_OUTPUT} &
+  PIDS="${PIDS} $!"
 done
 echo "Waiting for all the enumerations to complete."
-wait
+FAILED=0
+for pid in ${PIDS}; do
+  wait ${pid} || FAILED=1
+done
+if [ ${FAILED} -ne 0 ]; then
+  echo "Failure: not all of the enumerations completed." 1>&2
+  exit 1
+fi
 
 if [ "${COMPRESS_OUTPUT}" = "true" ]; then
   gzip ${DATA_DIR}/*_init*txt*
-- 
2.43.0


From 9fe6785db86ae6ec735cd14e2293f8a6496f2052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:24 +0000
Subject: [PATCH 48/48] fix: lr_enum_local_parallel_dev_null merges the only
 results it keeps

---
 cpp/scripts/lr_enum_local_parallel_dev_null.sh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/cpp/scripts/lr_enum_local_parallel_dev_null.sh b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
index 12dde2c..47ca61a 100755
--- a/cpp/scripts/lr_enum_local_parallel_dev_null.sh
+++ b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
@@ -75,14 +75,11 @@ fi
 echo
 date
 echo "(4) Merging the results"
+# Note: The halting and infinite machines went to /dev/null.
 if [ "${COMPRESS_OUTPUT}" = "false" ]; then
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt
   # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt
 else
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt.gz
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt.gz
   # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt.gz
 fi
-- 
2.43.0


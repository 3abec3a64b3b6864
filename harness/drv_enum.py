"""Runs the real Python enumerator and reads back what it wrote."""
import os
import sys

import Enumerate
import Halting_Lib
import IO
import TM_Enum
from Macro import Turing_Machine
from IO import TM_Record
from drv_pipe import status


def cells(tm):
  out = []
  for row in tm.trans_table:
    r = []
    for t in row:
      if t.condition == Turing_Machine.UNDEFINED:
        r.append([-1, -1, -1])
      else:
        r.append([int(t.symbol_out), int(t.dir_out), int(t.state_out)])
    out.append(r)
  return out


def read_records(path):
  out = []
  with IO.Reader(path) as reader:
    for rec in reader:
      out.append({"tm": cells(rec.tm()), "st": status(rec.proto.status),
                  "ran": rec.proto.HasField("filter")})
  return out


def enum(task):
  """task: {args, infile: optional path} -> records."""
  out = task.get("outfile") or "out.pb"
  Enumerate.main(list(task["args"]) + ["--no-output", "--force", "--outfile", out])
  return read_records(out)


def pieces(task):
  """Enumerate in pieces: each piece stops after cuts[j] machines; the undecided records are the
  next piece's input (shuffled, possibly split over several continuations).  Returns the decided
  records of all pieces and the undecided ones left at the end."""
  import random
  rng = random.Random(task["seed"])
  decided = []
  base = list(task["args"])
  common = list(task["common"])   # options that do not set up the initial machine
  Enumerate.main(base + common + ["--num-enum", str(task["cuts"][0]), "--no-output", "--force", "--outfile", "p0.pb"])
  pending = ["p0.pb"]
  n = 0
  sizes = []
  for j, cut in enumerate(task["cuts"][1:] + [task.get("last")]):
    todo = []
    for path in pending:
      with IO.Reader(path) as reader:
        for rec in reader:
          if rec.is_unknown_halting():
            todo.append(rec)
          else:
            decided.append({"tm": cells(rec.tm()), "st": status(rec.proto.status)})
    if task["shuffle"]:
      rng.shuffle(todo)
    k = task["split"] if len(todo) >= task["split"] else 1
    pending = []
    sizes.append(len(todo))
    for part in range(k):
      n += 1
      fin, fout = "in%d.pb" % n, "p%d.pb" % n
      with IO.Proto.Writer(fin) as w:
        for rec in todo[part::k]:
          w.write_record(rec)
      args = common + ["--infile", fin, "--no-output", "--force", "--outfile", fout]
      if cut is not None:
        args += ["--num-enum", str(cut)]
      Enumerate.main(args)
      pending.append(fout)
  left = []
  for path in pending:
    with IO.Reader(path) as reader:
      for rec in reader:
        r = {"tm": cells(rec.tm()), "st": status(rec.proto.status)}
        (left if rec.is_unknown_halting() else decided).append(r)
  return {"records": decided + left, "sizes": sizes}


def enum_and_count(task):
  """A full enumeration, its records, what the counting tool says of it, and a re-analysis of some."""
  import Count
  import Macro_Simulator
  from optparse import OptionParser
  recs = enum(task)
  total = 0
  with IO.Reader("out.pb") as reader:
    for rec in reader if task["count"] else []:   # the tool counts machines with A0 = 1RB only
      total += Count.count(rec.tm(), task["nohalt"])
  return {"records": recs, "total": total}


def reanalyse(task):
  """The analysis of one machine (given as the enumeration's node) with the enumeration's options."""
  import Macro_Simulator
  from optparse import OptionParser
  parser = OptionParser()
  Macro_Simulator.add_option_group(parser)
  options, rest = parser.parse_args(list(task["args"]))
  if not options.max_block_size:
    options.max_block_size = 5
  rec = TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(task["tm"]), allow_no_halt=task["nohalt"]))
  try:
    Macro_Simulator.run_options(rec, options)
  except Exception:
    return None
  return status(rec.proto.status)


def rerun(task):
  """Enumerate with weak options; then put the machines it did not see halting through a second
  enumeration twice: from records that still carry the first results, and from fresh records."""
  Enumerate.main(task["args"] + task["first"] + ["--no-output", "--force", "--outfile", "a.pb"])
  roots = []
  with IO.Reader("a.pb") as reader, IO.Proto.Writer("old.pb") as wo, IO.Proto.Writer("new.pb") as wn:
    for rec in reader:
      if rec.proto.status.halt_status.is_decided and rec.proto.status.halt_status.is_halting:
        continue
      if len(roots) >= task["most"]:
        break
      wo.write_record(rec)
      wn.write_record(TM_Record.TM_Record(tm_enum=rec.tm_enum()))
      roots.append(cells(rec.tm()))
  out = {"roots": roots}
  for k in ("old", "new"):
    Enumerate.main(task["second"] + ["--infile", k + ".pb", "--no-output", "--force", "--outfile", k + "-out.pb"])
    out[k] = read_records(k + "-out.pb")
  return out


def subtrees(task):
  """Enumerates below given nodes."""
  with IO.Proto.Writer("in.pb") as w:
    for text in task["nodes"]:
      w.write_record(TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=task["nohalt"])))
  return enum({"args": task["args"] + ["--infile", "in.pb"]})


class Fault(Exception):
  pass


class Faults:
  """Makes the analysis of chosen machines fail, or run into its time limit, at chosen calls.

  `marks` are numbers of calls made anywhere below an analysis; at each of them a fault occurs."""
  def __init__(self, marks, kind):
    import Macro_Simulator
    self.code = os.path.dirname(os.path.abspath(Macro_Simulator.__file__))
    self.top = os.path.abspath(Macro_Simulator.__file__)
    self.marks, self.kind = set(marks), kind
    self.n, self.fired = 0, []

  def below_analysis(self, frame):
    f = frame.f_back
    while f is not None:
      fn = f.f_code.co_filename
      base = os.path.basename(fn)
      if base in ("Halting_Lib.py", "TM_Enum.py", "Alarm.py") or os.sep + "IO" + os.sep in fn:
        return False
      if fn == self.top and any(isinstance(v, TM_Record.TM_Record) for v in f.f_locals.values()):
        return True
      f = f.f_back
    return False

  def trace(self, frame, event, arg):
    import signal
    fn = frame.f_code.co_filename
    if event != "call" or not fn.startswith(self.code) or fn == self.top:
      return None
    base = os.path.basename(fn)
    if base in ("Halting_Lib.py", "TM_Enum.py", "Alarm.py") or os.sep + "IO" + os.sep in fn or frame.f_code.co_name.startswith("__"):
      return None
    if not self.below_analysis(frame):
      return None
    self.n += 1
    if self.n in self.marks:
      self.marks.discard(self.n)
      self.fired.append("%s.%s" % (base, frame.f_code.co_name))
      if self.kind == "alarm":
        signal.raise_signal(signal.SIGALRM)
      else:
        raise {"error": Fault, "memory": MemoryError, "depth": RecursionError}[self.kind]("injected")
    return None

  def profile(self, frame, event, arg):
    if event == "call" and sys.gettrace() is None and self.marks:
      sys.settrace(self.trace)


def faulty(task):
  """An enumeration in which some analyses fail or run out of time."""
  import random
  import signal
  rng = random.Random(task["seed"])
  marks, n = [], rng.choice([0, 60, 400, 1500])
  while n < 20000 and len(marks) < task["faults"]:
    n += int(rng.expovariate(1.0 / task["gap"])) + 1
    marks.append(n)
  f = Faults(marks, task["kind"])
  sys.setprofile(f.profile)
  sys.settrace(f.trace)
  try:
    recs = enum(task)
  finally:
    sys.setprofile(None)
    sys.settrace(None)
    signal.setitimer(signal.ITIMER_REAL, 0.0)
  return {"records": recs, "fired": f.fired}

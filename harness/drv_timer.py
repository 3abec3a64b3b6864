"""Interrupting the analysis by its time limit at chosen points (worker side)."""
import os
import random
import signal
import sys

import Exp_Int
import Macro_Simulator
from drv_pipe import make_options, make_record, status

CODE = os.path.dirname(os.path.abspath(Macro_Simulator.__file__))
FINE = ("Macro_Simulator.py", "Halting_Lib.py", "Timer.py")


class Tracer:
  """Counts points in the code under test; delivers SIGALRM at point `at`."""
  def __init__(self, at=None):
    self.n = 0
    self.at = at
    self.fine = []

  def __call__(self, frame, event, arg):
    fn = frame.f_code.co_filename
    if not fn.startswith(CODE):
      return None
    base = os.path.basename(fn)
    if base == "Alarm.py":
      return None
    fine = base in FINE
    if fine:
      frame.f_trace_opcodes = True
    return self.local_fine if fine else self.local

  def point(self, fine):
    self.n += 1
    if fine and self.at is None:
      self.fine.append(self.n)
    if self.n == self.at:
      signal.raise_signal(signal.SIGALRM)

  def local(self, frame, event, arg):
    if event == "line":
      self.point(False)
    return self.local

  def local_fine(self, frame, event, arg):
    if event == "opcode":
      self.point(True)
    return self.local_fine


def run(text, args, tracer):
  options = make_options(args)
  rec = make_record(text)
  before = rec.proto.tm.SerializeToString()
  out = "returned"
  sys.settrace(tracer)
  try:
    Macro_Simulator.run_timer(rec, options, 100)
  except Exp_Int.ExpIntException:
    out = "gave_up"
  finally:
    sys.settrace(None)
    signal.setitimer(signal.ITIMER_REAL, 0.0)
  return out, rec, rec.proto.tm.SerializeToString() == before


def interrupted(task):
  """Statuses recorded after interruptions at many points of one analysis."""
  rng = random.Random(task["seed"])
  t = Tracer()
  out, rec, same = run(task["tm"], task["args"], t)
  full = status(rec.proto.status)
  if out == "gave_up" or t.n > task["max_points"]:
    return {"skip": True, "points": t.n}
  fine = t.fine
  if len(fine) > task["fine"]:
    # all the last ones (where the verdict is written), a sample of the others
    fine = fine[-task["fine"] // 2:] + rng.sample(fine, task["fine"] // 2)
  pts = set(fine)
  for _ in range(task["coarse"]):
    pts.add(rng.randrange(1, t.n + 1))
  seen = {}
  for k in sorted(pts):
    tr = Tracer(k)
    try:
      out, rec, same = run(task["tm"], task["args"], tr)
    except BaseException as e:
      seen.setdefault("%s: %s" % (type(e).__name__, e), []).append(k)
      continue
    st = status(rec.proto.status)
    st["tm_unchanged"] = same
    st["timed_out"] = rec.proto.filter.simulator.result.unknown_info.HasField("over_time")
    key = repr(sorted(st.items()))
    seen.setdefault(key, [st, 0, k])
    seen[key][1] += 1
  # a later analysis in the same process is not affected
  out, rec, same = run(task["tm"], task["args"], Tracer())
  again = status(rec.proto.status)
  return {"skip": False, "points": t.n, "tried": len(pts), "full": full, "again": again,
          "statuses": [v for v in seen.values() if isinstance(v[0], dict)],
          "errors": [(k, v[0]) for k, v in seen.items() if not isinstance(v[0], dict)]}


class Broken(Exception):
  pass


def limits(task):
  """Several analyses, one after the other, under the real timer.  Each item is
  [text, args, limit in ms, kind]; kind "fail": an analysis with an error of its own."""
  import time
  out = []
  for text, args, limit, kind in task["runs"]:
    options = make_options(args)
    alone = None
    if kind == "short":
      rec = make_record(text)
      Macro_Simulator.run_options(rec, options)
      alone = status(rec.proto.status)
    rec = make_record(text)
    real = Macro_Simulator.run_options
    if kind == "fail":
      def broken(*a, **k):
        raise Broken()
      Macro_Simulator.run_options = broken
    e = {"endless": kind == "endless", "limit": limit, "slack": task["slack"], "stray": False, "error": ""}
    t0 = time.monotonic()
    try:
      Macro_Simulator.run_timer(rec, options, limit / 1000)
    except Broken:
      pass
    except Exp_Int.ExpIntException:
      e["error"] = "gave_up"
    except Exception as x:
      e["error"] = "%s: %s" % (type(x).__name__, x)
    e["took"] = int((time.monotonic() - t0) * 1000) + 1
    Macro_Simulator.run_options = real
    try:
      # whatever is still running gets its chance to go off here
      end = time.monotonic() + task["idle"] / 1000
      while time.monotonic() < end:
        time.sleep(.01)
    except Exception as x:
      e["stray"] = True
    s = status(rec.proto.status)
    e["decided"] = bool(s["decided"] or s["qdecided"])
    e["timed"] = rec.proto.filter.simulator.result.unknown_info.HasField("over_time")
    e["same"] = alone is None or s == alone
    e["what"] = [text, args, limit, kind]
    out.append(e)
  signal.setitimer(signal.ITIMER_REAL, 0.0)
  return out

"""Recorders for the analysis pipeline and Lin recurrence (run in worker processes)."""
import copy
from optparse import OptionParser

import Exp_Int
import Halting_Lib
import IO
import Lin_Recur_Detect
import Macro_Simulator
import io_pb2
from IO import TM_Record
import TM_Enum


def make_options(args):
  parser = OptionParser()
  Macro_Simulator.add_option_group(parser)
  options, rest = parser.parse_args(list(args))
  assert not rest, rest
  return options


def make_record(text):
  tm = IO.parse_tm(text)
  return TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(tm, allow_no_halt=False))


def big(field):
  """Value of a BigInt field as something JSON can carry: int, None or "big"."""
  v = Halting_Lib.get_big_int(field)
  if v is None:
    return None
  if isinstance(v, int):
    return v if abs(v) < 2**31 - 1 else "big"
  return "big"


def status(st):
  h = st.halt_status
  q = st.quasihalt_status
  return {"decided": h.is_decided, "halting": h.is_halting,
          "steps": big(h.halt_steps), "score": big(h.halt_score),
          "fq": h.from_state if h.is_halting else None,
          "fs": h.from_symbol if h.is_halting else None,
          "reason": h.inf_reason,
          "qdecided": q.is_decided, "quasi": q.is_quasihalting,
          "qsteps": big(q.quasihalt_steps), "qstate": q.quasihalt_state}


def pipeline(task):
  options = make_options(task["args"])
  rec = make_record(task["tm"])
  try:
    Macro_Simulator.run_options(rec, options)
  except Exp_Int.ExpIntException:
    # documented: the simulator gives up on numbers it cannot compare
    return {"gave_up": True, "st": status(rec.proto.status), "compute_steps": options.compute_steps}
  return {"gave_up": False, "st": status(rec.proto.status), "compute_steps": options.compute_steps}


def lin_recur(task):
  """Lin_Recur_Detect.filter with the given limits."""
  tm = IO.parse_tm(task["tm"])
  info = io_pb2.LinRecurFilterInfo()
  info.parameters.max_steps = task["max_steps"]
  info.parameters.find_min_start_step = task["min"]
  st = io_pb2.BBStatus()
  Lin_Recur_Detect.filter(tm, info, st)
  r = info.result
  return {"success": r.success, "s": r.start_step, "p": r.period, "o": r.offset, "st": status(st)}


def lr_hint(task):
  """A guess of the translated cycle (untrusted, own code), for deciding quasihalting."""
  import tms
  return tms.lr_hint(tms.from_text(task["tm"]), task["limit"])

"""Reads the record files a filtering campaign leaves behind."""
import os

import Halting_Lib
import IO
from drv_names import name


def _kind(status):
  h, q = status.halt_status, status.quasihalt_status
  if not h.is_decided:
    return "unknown", -1
  if h.is_halting:
    return "halt", Halting_Lib.get_big_int(h.halt_steps)
  if q.is_quasihalting:
    return "qhalt", Halting_Lib.get_big_int(q.quasihalt_steps)
  return "infinite", -1


def _pb(path):
  if not os.path.exists(path):
    return [{"m": "?", "v": "unknown", "n": -1}]
  out = []
  with IO.Proto.Reader(path) as reader:
    for rec in reader:
      v, n = _kind(rec.proto.status)
      out.append({"m": name(rec.ttable_str()), "v": v, "n": -1 if n is None else int(min(n, 10**6))})
  return out


def read(task):
  return {k: _pb(p) for k, p in task.items()}


def write(task):
  """Machines to a record file (undecided)."""
  from IO.TM_Record import TM_Record
  with IO.Proto.Writer(task["path"]) as w:
    for text in task["tms"]:
      rec = TM_Record()
      rec.proto.tm.ttable_str = text
      w.write_record(rec)
  return 1

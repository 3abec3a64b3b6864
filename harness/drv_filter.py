"""Runs the real deciders (closed tape languages, closed position sets, reverse engineering,
backtracking) on one machine with several parameter settings."""
import io_pb2
import IO
import TM_Enum
from IO import TM_Record


def status(bb):
  return {"decided": bool(bb.halt_status.is_decided), "halting": bool(bb.halt_status.is_halting),
          "reason": int(bb.halt_status.inf_reason),
          "qdecided": bool(bb.quasihalt_status.is_decided), "quasi": bool(bb.quasihalt_status.is_quasihalting)}


def make_record(text):
  return TM_Record.TM_Record(tm_enum=TM_Enum.TM_Enum(IO.parse_tm(text), allow_no_halt=False))


def ctl(task):
  """task: {tm, runs: [[type, block, offset, cutoff, back]]} -> list of [answer, status]."""
  import CTL_Filter
  out = []
  for typ, block, offset, cutoff, back in task["runs"]:
    rec = make_record(task["tm"])
    ans = CTL_Filter.filter(rec, typ, block, offset, cutoff, back)
    out.append([bool(ans), status(rec.proto.status)])
  return out


def ctl_direct(task):
  import CTL_Filter
  out = []
  for typ, block, offset, cutoff, back in task["runs"]:
    tm = IO.parse_tm(task["tm"])
    ok, _ = CTL_Filter.get_module(typ).test_CTL(tm, cutoff=cutoff, block_size=block, offset=offset, use_backsymbol=back)
    out.append([bool(ok), None])
  return out


def cps(task):
  """runs: [[block, window, max_steps, max_iters, max_configs, max_edges]]"""
  import CPS_Filter
  out = []
  for block, window, ms, mi, mc, me in task["runs"]:
    rec = make_record(task["tm"])
    CPS_Filter.filter(rec, block, window, ms, mi, mc, me)
    out.append([bool(rec.proto.filter.closed_graph.result.success), status(rec.proto.status)])
  return out


def rev(task):
  import Reverse_Engineer_Filter
  rec = make_record(task["tm"])
  Reverse_Engineer_Filter.filter(rec)
  return [[bool(rec.proto.filter.reverse_engineer.success), status(rec.proto.status)]]


def backtrack(task):
  import Backtracking_Filter
  out = []
  for steps, width in task["runs"]:
    rec = make_record(task["tm"])
    ans = Backtracking_Filter.backtrack(rec, steps, width)
    out.append([bool(ans), status(rec.proto.status)])
  return out

"""Normalises and permutes machines with the real code."""
import random

import IO
import LNF
import Permute
import TNF
from drv_enum import cells
from drv_io import make_tm


def iso(tt, d, steps, a=0, b=0, a2=0, b2=0):
  return {"k": "iso", "m": tt, "d": d, "a": a, "b": b, "a2": a2, "b2": b2, "steps": steps}


def normal(task):
  rng = random.Random(task["seed"])
  out = []
  for tt in task["tms"]:
    S, Y = len(tt), len(tt[0])
    steps = rng.choice([5, 20, 60, 150])
    tm = make_tm(tt)
    tnf = TNF.to_TNF(tm, steps)
    if tnf is None:
      out.append({"k": "none", "m": tt, "steps": steps})
    else:
      d = cells(tnf)
      out.append(iso(tt, d, 80))
      out.append({"k": "tnf", "d": d, "steps": steps})
      again = TNF.to_TNF(make_tm(d), steps)
      if again is not None:
        out.append({"k": "same", "m": d, "d": cells(again)})
    so, yo = list(range(S)), list(range(Y))
    rng.shuffle(so)
    if rng.random() < .7:
      rng.shuffle(yo)
    swap = rng.random() < .5
    p = TNF.permute_table(tm, so, yo, swap)
    d = cells(p)
    out.append(iso(tt, d, 80, a2=so.index(0), b2=yo.index(0)))
    for new_start, q in enumerate(Permute.permute_start_state(tm, steps)):
      out.append(iso(tt, cells(q), 80, a=new_start))
    if new_start != S - 1:
      out.append({"k": "parse"})
    if task["lnf"]:
      x = LNF.brute_lnf(tm)
      out.append(iso(tt, cells(x), 80, a2=int(x.init_state), b2=int(x.init_symbol)))
      out.append({"k": "lnf", "d": cells(x)})
      y = LNF.brute_lnf(make_tm(d))
      out.append({"k": "same", "m": cells(x), "d": cells(y)})
      z = LNF.brute_lnf(x)
      out.append({"k": "same", "m": cells(x), "d": cells(z)})
      out.append(iso(tt, cells(z), 80, a2=int(z.init_state), b2=int(z.init_symbol)))
    # The machine given is left alone.
    out.append({"k": "same", "m": tt, "d": cells(tm)})
  return out, 0

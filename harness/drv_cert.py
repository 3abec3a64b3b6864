"""Runs the closed-position-set program for its certificates."""
import contextlib
import io
import sys

import CPS


def cert(task):
  """task: {tm, runs: [[block, window, max_steps, max_iters, max_configs, max_edges]]} -> printed texts."""
  out = []
  for b, w, ms, mi, mc, me in task["runs"]:
    argv = ["CPS.py", task["tm"], str(b)] + ([str(w)] if w != 3 * b or task["explicit"] else [])
    argv += ["--max-steps", str(ms), "--max-iters", str(mi), "--max-configs", str(mc), "--max-edges", str(me), "--savask-cert"]
    old, buf = sys.argv, io.StringIO()
    sys.argv = argv
    try:
      with contextlib.redirect_stdout(buf):
        CPS.main()
    finally:
      sys.argv = old
    out.append(buf.getvalue())
  return out

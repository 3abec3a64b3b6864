"""Runs the programs that show runs (as scripts, in this process) and returns what they print."""
import contextlib
import io
import os
import runpy
import signal
import sys

import IO

CODE = os.path.dirname(os.path.dirname(os.path.abspath(IO.__file__)))


class Enough(BaseException):
  pass


class Lines(io.StringIO):
  """Standard output that ends the program after so many lines."""
  def __init__(self, most):
    super().__init__()
    self.most = most
    self.n = 0

  def write(self, text):
    super().write(text)
    self.n += text.count("\n")
    if self.n >= self.most:
      raise Enough()


def enough(*_):
  raise Enough()


def script(task):
  """task: {prog, runs: [argv], most, cpu} -> printed texts.  A program that is still running after
  `most` lines or (from the second run on) `cpu` seconds of its own time is ended."""
  res = []
  for argv in task["runs"]:
    old, buf = sys.argv, Lines(task.get("most", 10**9))
    sys.argv = [task["prog"]] + list(argv)
    try:
      if "cpu" in task and res:
        signal.signal(signal.SIGVTALRM, enough)
        signal.setitimer(signal.ITIMER_VIRTUAL, task["cpu"])
      with contextlib.redirect_stdout(buf):
        runpy.run_path(os.path.join(CODE, task["prog"]), run_name="__main__")
    except Enough:
      pass
    except SystemExit as e:
      if e.code not in (0, None):
        raise AssertionError("exit status %s" % e.code)
    finally:
      signal.setitimer(signal.ITIMER_VIRTUAL, 0)
      sys.argv = old
    res.append(buf.getvalue())
  return res

"""Counts, neighbours, printed tables (real code)."""
import contextlib
import io
import os
import re
import sys
from pathlib import Path

import Adjacent
import Count
import Enumerate
import IO
import TM_Print
import drv_io
from drv_enum import cells
from drv_tools import run_tool

MODS = (9973, 9967, 9949)


def res(n):
  return [n % m for m in MODS]


def counts(task):
  """Every record of an enumeration: what it stands for."""
  Enumerate.main(list(task["args"]) + ["--no-output", "--force", "--outfile", "c.pb"])
  out, total, tts = [], {False: 0, True: 0}, []
  with IO.Reader("c.pb") as r:
    for rec in r:
      tm = rec.tm()
      tts.append(cells(tm))
      for allow in (False, True):
        n = Count.count(tm, allow)
        total[allow] += n
        out.append({"k": "count", "tm": tts[-1], "allow": int(allow), "n": res(n)})
  for allow in (False, True):
    got = int(run_tool("Count", "c.pb", *(["--allow-no-halt"] if allow else [])))
    if got != total[allow]:
      raise AssertionError("Count.py printed %d for counts that add up to %d" % (got, total[allow]))
  # Nodes inside the tree: parts of the machines.
  for tt in task["nodes"]:
    for allow in (False, True):
      out.append({"k": "count", "tm": tt, "allow": int(allow), "n": res(Count.count(drv_io.make_tm(tt), allow))})
  if task["complete"]:
    allow = "--allow-no-halt" in task["args"]
    out.append({"k": "total", "S": task["S"], "Y": task["Y"], "allow": int(allow), "n": res(total[allow])})
  keep = task["keep"]
  return [c for j, c in enumerate(out) if c["k"] == "total" or len(out) <= keep or j % (len(out) // keep + 1) == 0]


def neighbours(task):
  out = []
  for tt in task["tms"]:
    tm = drv_io.make_tm(tt)
    adj = [cells(x) for x in Adjacent.adjacent(tm)]
    out.append({"k": "adjacent", "tm": tt, "after": cells(tm), "out": adj})
  # The tool prints the start-state permutations of the machine and of each neighbour.
  tt = task["tms"][0]
  text = drv_io.make_tm(tt).ttable_str()
  got = run_tool("Adjacent", "--", text).split() if task["arg"] else run_tool("Adjacent", inp=text + "\n").split()
  want = []
  for x in [tt] + task["want"]:
    want += run_tool("Permute", "--", drv_io.make_tm(x).ttable_str()).split()
  if sorted(got) != sorted(want):
    raise AssertionError("Adjacent.py %s: %d lines, %d expected, differing %s" % (
      text, len(got), len(want), sorted(set(got) ^ set(want))[:5]))
  return out


def tables(task):
  out = []
  for tt in task["tms"]:
    tm = drv_io.make_tm(tt)
    text = run_tool("TM_Print", "--", tm.ttable_str())
    rows = [[c.strip() for c in line.strip().strip("|").split("|")] for line in text.strip().splitlines()]
    assert rows[0][1:] == [str(s) for s in range(len(tt[0]))], rows
    back = []
    for q, row in enumerate(rows[2:]):
      assert row[0] == chr(65 + q), row
      back.append([[-1, -1, -1] if c == "---" else [int(c[0]), "LR".index(c[1]), -1 if c[2] == "Z" else ord(c[2]) - 65]
                   for c in row[1:]])
    out.append({"k": "table", "tm": tt, "out": back})
    # The gist format (two symbols).
    if len(tt[0]) == 2:
      lines = []
      for q, row in enumerate(tt):
        w = [chr(65 + q)]
        for c in row:
          w += ["-"] * 3 if c[0] < 0 else ["H"] * 3 if c[2] < 0 else [str(c[0]), "LR"[c[1]], chr(65 + c[2])]
        lines.append(" ".join(w) + ("  # note" if q % 2 else ""))
      Path("g.txt").write_text("\n".join(lines) + "\n")
      run_tool("IO_CGA_to_Morphett", "g.txt", "g.morphett")
      got = [x.split() for x in Path("g.morphett").read_text().splitlines()]
      back = [[[-1, -1, -1], [-1, -1, -1]] for _ in tt]
      seen = set()
      for q, s, w, d, n in got:
        assert (q, s) not in seen
        seen.add((q, s))
        back[ord(q) - 65]["_1".index(s)] = ["_1".index(w), "lr".index(d), -1 if n == "halt" else ord(n) - 65]
      out.append({"k": "table", "tm": [[[1, 1, -1] if c[0] >= 0 and c[2] < 0 else c for c in row] for row in tt], "out": back})
  return out

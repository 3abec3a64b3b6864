"""P24: what the simulation programs print about a run is true of the run.

The printed lines are read back into claims (configurations with their step numbers, halts,
scores, verdicts, entries of the macro transition table) and judged by TLC with RunClaims."""
import os
import re

import tms
import vlib
from chk_pipe import halt_claim
from chk_sim import judge_cases, machine_mix


class Unreadable(Exception):
  pass


BIG = 4000          # configurations beyond are not judged
LONG = 6000


def number(text):
  return int(text.replace("_", ""))


def state_of(letter):
  return -1 if letter == "Z" else ord(letter) - 65


def read_tape(text):
  """A printed configuration -> compressed configuration, or None if it has numbers beyond the bound."""
  text = text.replace("<sup>", "^").replace("</sup>", "").replace("<b>", "").replace("</b>", "")
  left, right, head, back, d = [], [], None, [], None
  for tok in text.split():
    m = re.fullmatch(r"(\d+)\^(\S+)", tok)
    if m:
      blk = [int(c) for c in m.group(1)]
      side = left if head is None else right
      if m.group(2) == "inf":
        if any(blk):
          raise Unreadable("infinite block is not blank in %r" % text)
        side.append([blk, 0])
      elif re.fullmatch(r"[\d_]+", m.group(2)):
        side.append([blk, number(m.group(2))])
      else:
        side.append([blk, BIG + 1])
      continue
    m = re.fullmatch(r"\((\d+)\)", tok)
    if m and not back:
      back = [int(c) for c in m.group(1)]
      continue
    m = re.fullmatch(r"(<)?([A-Z])(>)?", tok)
    if not m or bool(m.group(1)) == bool(m.group(3)) or head is not None:
      raise Unreadable("%r in %r" % (tok, text))
    head, d = m.group(2), 0 if m.group(1) else 1
  if head is None or not left or not right or left[0][1] != 0 or right[-1][1] != 0:
    raise Unreadable(text)
  if any(n == 0 for _, n in left[1:] + right[:-1]):
    raise Unreadable("no repetitions in %r" % text)
  if sum(n * len(b) for b, n in left + right) > BIG:
    return None
  return {"q": state_of(head), "dir": d, "back": back, "l": left[1:], "r": right[:-1][::-1]}


LINE = re.compile(r" ([ \d]{6})  (\S.*?) ?(?:\(([-\d_]+), ([-\d_]+)\))?")
HTML = re.compile(r" ([ \d]{10}): (\S.*)<br>")


def read_quick(text, html, steps):
  """-> (claims about configurations [(step or None, configuration)], final facts)"""
  cfgs, final = [], {}
  lines = text.split("\n")
  last = None
  prev = 0
  for j, line in enumerate(lines):
    if html:
      m = HTML.fullmatch(line)
      if m:
        cfgs.append((number(m.group(1)), m.group(2)))
        continue
    elif len(line) > 9 and line[0] == " " and line[6].isdigit() and line[7:9] == "  " and line[9] != " ":
      m = LINE.fullmatch(line)
      if not m:
        raise Unreadable(line)
      if steps:
        if m.group(4) is None:
          raise Unreadable(line)
        n, delta = number(m.group(4)), number(m.group(3))
        if delta != n - prev and len(cfgs) > 0:
          raise Unreadable("%d steps after step %d lead to %d" % (delta, prev, n))
        prev = n
        cfgs.append((n, m.group(2)))
      else:
        cfgs.append((None, m.group(2)))
      continue
    if line.startswith("Total:"):
      w = line.split()
      last = number(w[1]) if re.fullmatch(r"[\d_]+", w[1]) else None
      final["loops"] = number(w[-1])
    elif line.startswith("Elapsed time:"):
      cfgs.append((last if steps else None, lines[j + 1]))
      m = re.fullmatch(r"Num Nonzeros: (\S+)(?:  =  (\S+))?", lines[j + 2])
      if not m:
        raise Unreadable(lines[j + 2])
      final["score"] = number(m.group(1)) if re.fullmatch(r"[\d_]+", m.group(1)) else None
    elif line == "Turing Machine Halted":
      final["end"] = "halt"
    elif line == "Turing Machine reached Undefined transition":
      final["end"] = "undef"
    elif line.startswith("State: "):
      x = line.split()[1]
      final["fq"] = int(x) if x.isdigit() else state_of(x)
    elif line.startswith("Symbol: "):
      final["fs"] = int(line.split()[1])
    elif line.startswith("Steps: "):
      x = line.split()[1]
      final["steps"] = number(x) if re.fullmatch(r"[\d_]+", x) else None
    elif line.startswith("Nonzeros: "):
      x = line.split()[1]
      final["nonzeros"] = number(x) if re.fullmatch(r"[\d_]+", x) else None
    elif line == "Turing Machine proven Infinite":
      final["end"] = "inf"
  return cfgs, final


def read_table(text, S, Y):
  """The printed transition table of the machine."""
  out = []
  for line in text.split("\n"):
    m = re.fullmatch(r"\s+\| ([A-Z]) \|(.*)\|", line)
    if m:
      row = []
      for cell in m.group(2).split("|"):
        c = cell.strip()
        if c == "---":
          row.append(list(tms.UNDEF))
        else:
          row.append([int(c[:-2]), "LR".index(c[-2]), state_of(c[-1]) if c[-1] != "H" or S >= 8 else -1])
      if state_of(m.group(1)) != len(out):
        raise Unreadable(line)
      out.append(row)
  return out


def read_macro(text):
  """Entries of the printed macro table: (before, after, steps)."""
  lines = text.split("\n")
  at = [j for j, x in enumerate(lines) if x.startswith("Macro Machine TTable")]
  if not at:
    return None
  rows = [[c.strip() for c in x.strip().strip("|").split("|")] for x in lines[at[0] + 1:] if x.startswith("|")]
  out = []

  def head(x):
    m = re.fullmatch(r"(?:\((\d+)\) )?([A-Z])>", x)
    if m:
      return state_of(m.group(2)), 1, [int(c) for c in m.group(1) or ""]
    m = re.fullmatch(r"<([A-Z])(?: \((\d+)\))?", x)
    if m:
      return state_of(m.group(1)), 0, [int(c) for c in m.group(2) or ""]
    raise Unreadable(x)
  for row in rows[1:]:
    q, d, back = head(row[0])
    for sym, cell in zip(rows[0][1:], row[1:]):
      if not cell:
        continue
      blk = [int(c) for c in sym]
      before = {"q": q, "dir": d, "back": back, "l": [[blk, 1]] if d == 0 else [], "r": [[blk, 1]] if d == 1 else []}
      m = re.fullmatch(r"(\d+) ((?:\(\d+\) )?[A-Z]>) \[(\d+)\]", cell)
      if m:
        w, x, n = m.group(1), m.group(2), int(m.group(3))
      else:
        m = re.fullmatch(r"(<[A-Z](?: \(\d+\))?) (\d+) \[(\d+)\]", cell)
        if not m:
          raise Unreadable(cell)
        w, x, n = m.group(2), m.group(1), int(m.group(3))
      q2, d2, back2 = head(x)
      wb = [int(c) for c in w]
      after = {"q": q2, "dir": d2, "back": back2, "l": [[wb, 1]] if d2 == 1 else [], "r": [[wb, 1]] if d2 == 0 else []}
      out.append((before, after, n))
  return out


def quick_args(rng, S):
  a = []
  if rng.random() < .5:
    a += ["-n", str(rng.choice([1, 1, 2, 3, 4]))]
  else:
    a += ["--bf-loops", str(rng.choice([20, 100, 300]))]
    if rng.random() < .3:
      a += ["--block-mult", str(rng.choice([1, 2]))]
  a += ["-b"] * (rng.random() < .4) + ["-p"] * (rng.random() < .3) + ["-r"] * (rng.random() < .3)
  a += ["--limited-rules"] * (rng.random() < .2) + ["--no-steps"] * (rng.random() < .2) + ["--print-macro-ttable"] * (rng.random() < .4)
  a += ["--freeze-prover"] * (rng.random() < .1 and "-p" not in a) + ["--full-reps"] * (rng.random() < .1)
  mode = rng.choice(["-v", "-v", "-q", "", ""])
  if mode:
    a.append(mode)
  else:
    a += ["--print-loops", str(rng.choice([1, 3, 20]))]
  html = rng.random() < .15
  a += ["--html-format"] * html
  start = rng.randrange(S) if rng.random() < .3 else 0
  if start or rng.random() < .1:
    a += ["-s", chr(65 + start)]
  return a + ["--max-loops", str(rng.choice([1, 7, 40, 150]))], html, start


def quick(ctx, cases, desc):
  rng = ctx.rng
  tts = [tt for tt in machine_mix(ctx, ctx.size(900, 9000)) if len(tt) <= 25 and len(tt[0]) <= 10]
  jobs = [(tt,) + quick_args(rng, len(tt)) for tt in tts]
  recs = vlib.record("drv_show", "script", [{"prog": "Quick_Sim.py", "runs": [args + [tms.to_text(tt)]]} for tt, args, _, _ in jobs], timeout=60)
  for (tt, args, html, start), (st, r) in zip(jobs, recs):
    where = "Quick_Sim.py %s %s" % (" ".join(args), tms.to_text(tt))
    if st == "hang":
      ctx.count("abandoned")
      continue
    if st != "ok":
      if "ExpInt" in (r or ""):
        ctx.count("gave_up")
        continue
      ctx.violation("quick:%s:%s" % (st, where), "%s: %s" % (where, (r or "")[-600:]), where)
      continue
    try:
      quick_claims(ctx, cases, desc, tt, args, html, start, r[0], where)
    except (Unreadable, ValueError, IndexError) as e:
      ctx.violation("unreadable:%s" % where, "%s: printed %s %s" % (where, type(e).__name__, e), where)


def init_of(start):
  return [{"q": start, "dir": 1, "back": [], "l": [], "r": []}] if start else []


def quick_claims(ctx, cases, desc, tt, args, html, start, text, where):
  steps = "--no-steps" not in args
  if "-q" not in args:
    ctx.count("printed_tables")
    if read_table(text, len(tt), len(tt[0])) != tt:
      ctx.violation("table:%s" % tms.to_text(tt), "%s: prints the table %s" % (where, read_table(text, len(tt), len(tt[0]))), where)
  cfgs, final = read_quick(text, html, steps)
  if html and not steps:
    cfgs = [(None, t) for n, t in cfgs]
  if not cfgs:
    raise Unreadable("no configuration")
  end = final.get("end")
  obs, t = [], -1
  for j, (n, tape) in enumerate(cfgs):
    m = read_tape(tape)
    if end in ("halt", "undef") and (m is None or m["q"] == -1):
      continue
    if m is None or (n is not None and n > LONG):
      ctx.count("configurations_beyond")
      break
    if n is None:
      if obs and obs[-1].get("m") == m:
        continue
      obs.append({"k": "reach", "n": LONG, "m": m})
      ctx.count("configurations_without_step")
    else:
      obs.append({"k": "cfg", "n": n, "m": m})
      ctx.count("configurations")
  else:
    if end in ("halt", "undef"):
      m = read_tape(cfgs[-1][1])
      sc, ns = final.get("nonzeros"), final.get("steps")
      if sc != final.get("score"):
        raise Unreadable("two scores %s and %s" % (sc, final.get("score")))
      if end == "undef" and ("fq" not in final or "fs" not in final):
        raise Unreadable("no halting cell")
      if m is not None and sc is not None and (ns is not None or not steps) and (ns or 0) <= LONG:
        c = halt_claim(ns if steps else LONG, sc, final.get("fq", -1), final.get("fs", -1), k="halt" if steps else "halt?")
        c.update(undef=1 if end == "undef" else 0, hastape=1, m=m)
        obs.append(c)
        ctx.count("halts")
        if steps and cfgs[-1][0] != ns:
          raise Unreadable("two step counts %s and %s" % (cfgs[-1][0], ns))
    elif end == "inf":
      obs.append({"k": "inf", "n": 1500})
      ctx.count("infinite")
    elif steps and cfgs[-1][0] is not None and cfgs[-1][0] <= LONG:
      obs.append({"k": "alive", "n": cfgs[-1][0]})
  if obs:
    desc[len(cases)] = where
    cases.append({"id": len(cases), "tm": tt, "track": 0, "obs": obs, "init": init_of(start)})
  mt = read_macro(text)
  if "--print-macro-ttable" in args and mt is None and ("-b" not in args):
    raise Unreadable("no macro table")
  for before, after, n in (mt or [])[:40]:
    if n >= 128:
      continue        # the table does not say which of these never leave their block
    ctx.count("macro_transitions")
    desc[len(cases)] = where
    if after["q"] == -1:
      c = halt_claim(n, -1, -1, -1)
      c.update(hastape=1, m=after)
    else:
      c = {"k": "cfg", "n": n, "m": after}
    cases.append({"id": len(cases), "tm": tt, "track": 0, "obs": [c], "init": [before]})


# ------------------------------------------------------------------ pictures

COLOR = {49: 0, 41: 1, 42: 2, 44: 3, 46: 4, 43: 5, 45: 6}
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"


def read_picture(text):
  """-> (rows [(step, state, index of the head in the row or None, cells)], halting step or None)"""
  rows, halt = [], None
  lines = text.split("\n")
  for line in lines[:-1]:
    m = re.match(r"\x1b\[0m *(\d+): ", line)
    if m:
      cells, head, q = [], None, None
      rest = line[m.end():]
      parts = re.findall(r"\x1b\[(1;)?(\d+)m([^\x1b]?)", rest)
      body, tail = parts[:-3], parts[-3:]
      if len(tail) != 3 or tail[0][1] != "0" or tail[2][1] != "0":
        raise Unreadable(line)
      for bold, col, ch in body:
        if bold:
          if head is not None:
            raise Unreadable("two heads: %r" % line)
          head, q = len(cells), (-1 if ch == "!" else LETTERS.index(ch))
        cells.append(COLOR[int(col)])
      rows.append((int(m.group(1)), q, head, cells, COLOR[int(tail[1][1])]))
    elif line.startswith("TM Halted on step"):
      halt = int(line.split()[-1])
  return rows, halt


def start_text(rng, S, Y):
  """A start configuration as written on the command line and as a configuration."""
  sides = []
  for _ in range(2):
    side = []
    for _ in range(rng.choice([0, 1, 2, 3])):
      side.append(([rng.randrange(Y) for _ in range(rng.choice([1, 1, 2, 3]))], rng.choice([1, 1, 2, 5])))
    sides.append(side)

  def text(side):
    return ["".join(map(str, w)) + ("^%d" % n if n > 1 else "") for w, n in side]
  q, d = rng.randrange(S), rng.randrange(2)
  s = " ".join(text(sides[0]) + [("<%s" if d == 0 else "%s>") % LETTERS[q]] + text(sides[1]))
  return s, [{"q": q, "dir": d, "back": [], "l": [[w, n] for w, n in sides[0]], "r": [[w, n] for w, n in reversed(sides[1])]}]


def extent(init):
  """Cells written by the start configuration, relative to the head: (lowest, highest)."""
  if not init:
    return 0, 0
  m = init[0]
  nl, nr = sum(len(w) * n for w, n in m["l"]), sum(len(w) * n for w, n in m["r"])
  if m["dir"] == 1:
    return min(0, -nl), max(0, nr - 1)
  return min(0, -(nl - 1)) if nl else 0, nr


def pictures(ctx, cases, desc):
  rng = ctx.rng
  jobs = []
  for tt in machine_mix(ctx, ctx.size(350, 3000)):
    S, Y = len(tt), len(tt[0])
    if S > 25 or Y > 7:
      continue
    init, cfg = [], []
    if rng.random() < .5:
      s, init = start_text(rng, S, Y)
      cfg = [s]
    width = rng.choice([60, 80, 120, 31])
    rel = rng.random() < .4
    p = rng.choice(["l", "r", "lr", "al"])
    base = [tms.to_text(tt)] + cfg + ["-w", str(width)] + ["-r"] * rel + ["--no-ttable"]
    jobs.append((tt, init, width, rel, p, base))
  recs = vlib.record("drv_show", "script", [{"prog": "Visual_Simulator.py", "runs": [j[5], j[5] + ["-p", j[4]]], "most": 60, "cpu": 2} for j in jobs], timeout=30)
  for (tt, init, width, rel, p, base), (st, r) in zip(jobs, recs):
    where = "Visual_Simulator.py %s" % " ".join(base)
    if st == "hang":
      ctx.count("abandoned")        # "l" and "r" may stop printing for ever
      continue
    if st != "ok":
      ctx.violation("visual:%s:%s" % (st, where), "%s: %s" % (where, (r or "")[-500:]), where)
      continue
    try:
      rows, halt = read_picture(r[0])
      half = width // 2 - 10
      if [x[0] for x in rows] != list(range(len(rows))) or (halt is None and len(rows) < 50):
        raise Unreadable("rows %s" % [x[0] for x in rows][:10])
      if halt is not None and halt != rows[-1][0]:
        raise Unreadable("halts on step %s, last row %s" % (halt, rows[-1][0]))
      obs = []
      for n, q, head, cells, here in rows:
        if len(cells) != 2 * half + 1 or (rel and head != half):
          raise Unreadable("row %d has %d cells, head at %s" % (n, len(cells), head))
        if head is None:
          continue                  # the head is outside of the picture
        if cells[head] != here:
          raise Unreadable("row %d: symbol under the head" % n)
        # relative pictures do not say where the tape is
        obs.append({"k": "win", "n": n, "q": q, "h": head + 1, "p": head - half, "abs": 0 if rel else 1, "w": cells})
        ctx.count("pictured_configurations")
      if halt is not None:
        obs.append(halt_claim(halt, -1, -1, -1))
      if obs:
        desc[len(cases)] = where
        cases.append({"id": len(cases), "tm": tt, "track": 0, "obs": obs, "init": init})
      # the other print option shows exactly the rows at the left / right end of the tape seen so far
      if not rel and all(x[2] is not None for x in rows):
        lo, hi = extent(init)
        want = []
        for x in rows:
          pos = x[2] - half
          lo, hi = min(lo, pos), max(hi, pos)
          if "a" in p or ("l" in p and pos == lo) or ("r" in p and pos == hi):
            want.append(x)
        got = read_picture(r[1])[0]
        upto = rows[-1][0]
        if [x for x in got if x[0] <= upto] != [x for x in want if not got or x[0] <= max(got[-1][0], 0) or halt is not None or len(got) < 50]:
          raise Unreadable("-p %s shows steps %s" % (p, [x[0] for x in got][:12]))
        ctx.count("print_options")
    except (Unreadable, ValueError, IndexError, KeyError) as e:
      ctx.violation("unreadable:%s" % where, "%s: printed %s %s" % (where, type(e).__name__, e), where)


# ------------------------------------------------------------------ direct simulation

def direct(ctx, cases, desc):
  rng = ctx.rng
  jobs = []
  for tt in machine_mix(ctx, ctx.size(250, 2500)):
    if len(tt) <= 25 and len(tt[0]) <= 10:
      jobs.append((tt, rng.choice([0, 1, 2, 5, 30, 400, 3000])))
  recs = vlib.record("drv_show", "script", [{"prog": "Direct_Simulator.py", "runs": [[tms.to_text(tt), str(n)]]} for tt, n in jobs], timeout=30)
  texts = [("Direct_Simulator.py", tt, n, r[0] if st == "ok" else None, r) for (tt, n), (st, r) in zip(jobs, recs)]
  build = vlib.cpp_build()
  path = os.path.join(vlib.scratch(), "show-tms")
  some = jobs[:ctx.size(60, 400)]
  with open(path, "w") as f:
    f.write("".join(tms.to_text(tt) + "\n" for tt, _ in some))
  for j, (tt, n) in enumerate(some):
    rc, so, se = vlib.run_cmd([os.path.join(build, "direct_sim"), path, str(j + 1), str(n)], timeout=60)
    texts.append(("direct_sim", tt, n, so if rc == 0 else None, se))
  for prog, tt, n, text, err in texts:
    where = "%s %s %d" % (prog, tms.to_text(tt), n)
    m = re.search(r"Simulated ([\d_]+) (?:steps )?in", text or "")
    if text is None or not m:
      ctx.violation("direct:%s" % where, "%s: %s" % (where, str(err or text)[-400:]), where)
      continue
    done = number(m.group(1))
    h = re.search(r"Halted (?:with score ([\d_]+) )?at step ([\d_]+)", text)
    if h:
      obs = [halt_claim(number(h.group(2)), number(h.group(1)) if h.group(1) else -1, -1, -1)]
      if number(h.group(2)) != done or done > n:
        ctx.violation("direct-steps:%s" % where, "%s: %r" % (where, text[-200:]), where)
    else:
      obs = [{"k": "alive", "n": n}]
      if done != n:
        ctx.violation("direct-steps:%s" % where, "%s: %r" % (where, text[-200:]), where)
    ctx.count("direct_runs")
    desc[len(cases)] = where
    cases.append({"id": len(cases), "tm": tt, "track": 0, "obs": obs})


def p24(ctx):
  cases, desc = [], {}
  quick(ctx, cases, desc)
  pictures(ctx, cases, desc)
  direct(ctx, cases, desc)
  for c in cases[:3]:
    ctx.sample({"program": desc[c["id"]], "claims": len(c["obs"])})
  judge_cases(ctx, cases, "printed run", lambda j, v: "%s:%s" % (v, desc.get(j, j)), describe=lambda j: desc.get(j, ""))

"""P19: normal forms and permutations."""
import os

import tms
import vlib
from chk_num import judge, run


def machine(rng, S, Y, p_halt=.1, p_undef=.15, halt_any=False):
  tt = tms.random_tm(rng, S, Y, p_halt, p_undef, halt_any)
  if rng.random() < .5:    # any first cell
    tt[0][0] = [rng.randrange(Y), rng.randrange(2), rng.randrange(S)]
  if rng.random() < .1:
    tt[0][0] = list(tms.UNDEF)
  return tt


def tools(ctx, rng, cases):
  """The command line tools."""
  d = os.path.join(vlib.scratch(), "norm")
  os.makedirs(d, exist_ok=True)
  py = vlib.PY
  code = os.path.join(vlib.REPO, "Code")

  def sh(args, stdin=None):
    return vlib.run_cmd([py] + args, cwd=d, inp=stdin.encode() if stdin else None,
                        env=dict(os.environ, PYTHONPATH=code), timeout=100)

  def lines(text):
    return [tms.from_text(x) for x in text.split()]
  tts = [machine(rng, rng.randrange(2, 5), rng.choice([2, 2, 3])) for _ in range(6)]
  text = "".join(tms.to_text(t) + "\n" for t in tts)
  for tool in ("TNF.py", "Permute.py", "LNF.py"):
    ctx.count("tool_runs")
    if tool == "LNF.py":
      path = os.path.join(d, "in.txt")
      with open(path, "w") as f:
        f.write(text)
      rc, so, se = sh([os.path.join(code, tool), path])
    else:
      rc, so, se = sh([os.path.join(code, tool)], stdin=text)
    if rc != 0:
      ctx.violation(tool + ":exit", "%s failed: %s" % (tool, se[-800:]), text)
      continue
    rows = so.strip().splitlines()
    try:
      if tool == "TNF.py":
        assert len(rows) == len(tts)
        for tt, row in zip(tts, rows):
          if row.startswith("Failed"):
            cases.append({"k": "none", "m": tt, "steps": 1000})
          else:
            t2 = tms.from_text(row)
            cases.append({"k": "iso", "m": tt, "d": t2, "a": 0, "b": 0, "a2": 0, "b2": 0, "steps": 80})
            cases.append({"k": "tnf", "d": t2, "steps": 200})
      elif tool == "Permute.py":
        assert len(rows) == sum(len(t) for t in tts)
        it = iter(rows)
        for tt in tts:
          for a in range(len(tt)):
            cases.append({"k": "iso", "m": tt, "d": tms.from_text(next(it)), "a": a, "b": 0, "a2": 0, "b2": 0, "steps": 80})
      else:
        assert len(rows) == len(tts)
        for tt, row in zip(tts, rows):
          start, table = row.split(": ")
          t2 = tms.from_text(table)
          cases.append({"k": "iso", "m": tt, "d": t2, "a": 0, "b": 0, "a2": ord(start[0]) - 65, "b2": int(start[1]), "steps": 80})
          cases.append({"k": "lnf", "d": t2})
    except (AssertionError, ValueError, IndexError) as e:
      ctx.violation(tool + ":output", "%s printed something else: %s %r" % (tool, so[:600], e), text)


def p19(ctx):
  ctx.add_tlc(vlib.tlc("RenamingMC"))
  rng = ctx.rng
  tasks = []
  for j in range(ctx.size(48, 400)):
    group = []
    for _ in range(10):
      S, Y = rng.choice([(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (5, 2), (2, 5), (4, 3)])
      if rng.random() < .35:
        tt = tms.tnf_random(rng, S, Y, 60)
        so, yo = list(range(1, S)), list(range(1, Y))
        rng.shuffle(so)
        rng.shuffle(yo)
        so, yo = [0] + so, [0] + yo
        sw = rng.randrange(2)
        tt2 = [[None] * Y for _ in range(S)]
        for q in range(S):
          for s in range(Y):
            w, dd, n = tt[q][s]
            tt2[so[q]][yo[s]] = ([-1, -1, -1] if w < 0 else [1, 1, -1] if n < 0 else [yo[w], dd ^ sw, so[n]])
        tt = tt2
      else:
        tt = machine(rng, S, Y, halt_any=rng.random() < .5)
      group.append(tt)
    tasks.append({"seed": rng.random(), "tms": group, "lnf": 0})
    # Lexical normal form is defined for machines whose halting transitions are "1RZ".
    lnf = [t for t in group if len(t) * len(t[0]) <= 9 and all(c == [1, 1, -1] for row in t for c in row if c[0] >= 0 and c[2] < 0)]
    tasks.append({"seed": rng.random(), "tms": lnf[:5], "lnf": 1})
  cases = []
  run(ctx, "drv_norm", "normal", tasks, cases)
  tools(ctx, rng, cases)
  judge(ctx, "RenamingCases", cases, "renaming")
  for c in cases[:4]:
    ctx.sample(c)

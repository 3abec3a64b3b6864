"""Soundness of the non-halting deciders (P07-P10).

Every "infinite" answer of a real decider is a claim about the machine's run that TLC
refutes by running the specified machine (RunClaims).  The deciders themselves are specified
in Deciders.tla, whose soundness TLC checks for every machine with two states and two symbols."""
import random

import tms
import vlib
from chk_sim import judge_cases

DEEP = 30000


def all_2x2():
  """Every 2-state 2-symbol machine over running and undefined cells (as in DecidersCheck)."""
  def cell(x):
    if x == 0:
      return list(tms.UNDEF)
    y = x - 1
    return [y % 2, (y // 2) % 2, y // 4]
  for n in range(9 ** 4):
    v = [(n // 9 ** j) % 9 for j in range(4)]
    yield [[cell(v[0]), cell(v[1])], [cell(v[2]), cell(v[3])]]


def traps():
  return tms.corpus("traps")


def _gen(task):
  """Worker: generate prepared halting machines."""
  rng = random.Random(task["seed"])
  return [tms.prepared_halting(rng, min_run=rng.choice([1, 3, 6])) for _ in range(task["n"])]


def prepared(ctx, n):
  per = 250
  res = vlib.record("chk_filter", "_gen", [{"seed": ctx.rng.getrandbits(40), "n": per} for _ in range(max(1, n // per))],
                    timeout=300)
  return [(tt, steps) for st, r in res if st == "ok" for tt, steps in r]


def spec_sound(ctx):
  """The specified deciders are sound: all 2x2 machines (complete), a sample of 3x2 / 2x3."""
  jobs = [(2, 2, ctx.size(3, 1), 20)]
  if ctx.thorough:
    jobs += [(3, 2, 401, 30), (2, 3, 397, 50)]
  for S, Y, stride, bound in jobs:
    r = vlib.tlc("DecidersCheck", env={"STATES": S, "SYMBOLS": Y, "BOUND": bound, "STRIDE": stride,
                                       "PHASE": ctx.seed, "CASES": ""}, cfg="DecidersSound.cfg")
    ctx.add_tlc(r)
    ctx.count("spec_machine_decider_pairs_%dx%d" % (S, Y), r.distinct // 2)


def judge(ctx, what, driver, tasks, items, specdec=None, timeout=60):
  """items: (tt, untrusted halting step or None); tasks: driver tasks with runs."""
  recs = vlib.record("drv_filter", driver, tasks, timeout=timeout)
  cases, desc, spec_cases = [], {}, []
  for (tt, steps), t, (st, res) in zip(items, tasks, recs):
    if st == "hang":
      ctx.count("abandoned")
      continue
    if st == "exc":
      ctx.violation("%s:exc:%s" % (driver, t["tm"]), "%s gave no answer on %s %s: %s" % (what, t["tm"], t["runs"], res[-600:]), t)
      continue
    if st != "ok":
      continue
    for run, (ans, stat) in zip(t["runs"], res):
      ctx.count("answers")
      if ans is False and stat and stat["decided"] and not stat["halting"]:
        ans = True
      elif ans and stat and not (stat["decided"] and not stat["halting"]):
        ctx.violation("%s:status:%s:%s" % (driver, t["tm"], run), "%s proved %s infinite with %s but recorded %s" % (
          what, t["tm"], run, stat), t)
      if stat and stat["decided"] and stat["halting"]:
        ctx.violation("%s:halting:%s:%s" % (driver, t["tm"], run), "%s recorded a halting verdict for %s" % (what, t["tm"]), t)
      if ans and stat and stat["qdecided"]:
        ctx.violation("%s:quasi:%s:%s" % (driver, t["tm"], run), "%s recorded a quasihalting verdict for %s: %s" % (what, t["tm"], stat), t)
      if not ans:
        continue
      ctx.count("proved_infinite")
      cid = len(cases)
      desc[cid] = (t["tm"], run)
      bound = steps + 2 if steps else ctx.size(600, 5000)
      cases.append({"id": cid, "tm": tt, "track": 0, "obs": [{"k": "inf", "n": bound}]})
      sc = specdec(tt, run) if specdec else None
      if sc and len(spec_cases) < ctx.size(800, 6000):
        spec_cases.append(dict(sc, id=cid, tm=tt))
  # What does the specified decider say?  Where it cannot prove it, the machine is run much longer.
  if spec_cases:
    v, r = vlib.judge("DecidersCheck", spec_cases, ctx, env={"STATES": 2, "SYMBOLS": 2, "BOUND": 1, "STRIDE": 1, "PHASE": 0})
    for sc in spec_cases:
      if v[sc["id"]][0] == "infinite":
        ctx.count("agrees_with_specified_decider")
      else:
        ctx.count("beyond_specified_decider")
        cases[sc["id"]]["obs"][0]["n"] = DEEP
  for c in cases[:3]:
    ctx.sample({"tm": desc[c["id"]][0], "run": desc[c["id"]][1]})
  judge_cases(ctx, cases, what, lambda j, v: "%s:%s:%s:%s" % (driver, v, desc[j][0], desc[j][1]), describe=lambda j: desc[j][1])


def nonhalting_mix(ctx, n):
  rng = ctx.rng
  run, quasi, big = tms.corpus("run"), tms.corpus("quasi"), tms.corpus("run_big")
  out = []
  for _ in range(n):
    x = rng.random()
    if x < .3:
      tt = rng.choice(run)[0]
    elif x < .5:
      tt = rng.choice(quasi)[0]
    elif x < .7:
      tt = tms.mutate(rng, rng.choice(run)[0])
    elif x < .85:
      tt = rng.choice(big)[0]
    else:
      tt = tms.random_tm(rng, rng.randrange(1, 5), rng.randrange(2, 5), halt_any=True)
    out.append((tms.flip(tt) if rng.random() < .3 else tt, None))
  return out


def machines(ctx, n_halt, n_prep, n_run):
  rng = ctx.rng
  pool = tms.corpus("halt_big") + tms.corpus("halt")
  items = [(tms.flip(tt) if rng.random() < .3 else tt, n) for tt, n in (rng.choice(pool) for _ in range(n_halt))]
  items += traps()
  items += prepared(ctx, n_prep)
  items += nonhalting_mix(ctx, n_run)
  return items


def p07(ctx):
  rng = ctx.rng
  spec_sound(ctx)
  items = machines(ctx, ctx.size(5000, 40000), ctx.size(24000, 250000), ctx.size(600, 4000))
  tasks = []
  for tt, steps in items:
    runs = []
    lim = steps or 200
    for typ in ("CTL1", "CTL2", "CTL3", "CTL4"):
      for _ in range(3):
        b = rng.choice([1, 1, 1, 1, 2, 2, 3, 4])
        cut = rng.choice([0, 1, 2, len(tt) - 2, len(tt) - 1, len(tt) + 1, rng.randrange(1 + min(lim, 60)), rng.randrange(1 + min(lim, 25)), 200])
        runs.append([typ, b, rng.randrange(b), max(0, cut), rng.random() < .5])
    tasks.append({"tm": tms.to_text(tt), "runs": runs})
  small = [(tt, None) for j, tt in enumerate(all_2x2()) if ctx.thorough or j % 5 == ctx.seed % 5]
  for tt, _ in small:
    tasks.append({"tm": tms.to_text(tt), "runs": [[typ, 1, 0, c, False] for typ in ("CTL1", "CTL2", "CTL3", "CTL4") for c in (0, 3)]})
  items += small
  ctx.count("machines", len(items))
  shape = {"CTL1": "as", "CTL2": "asb", "CTL3": "abs", "CTL4": "asbc"}
  # cutoffs count simulator loops; with single cells and no macro they are chains of steps, so the
  # specified decider is only asked from the blank tape.
  judge(ctx, "closed tape language", "ctl", tasks, items,
        lambda tt, run: {"dec": shape[run[0]], "p": 0, "w": 0} if run[1] == 1 and run[3] == 0 and not run[4] else None)


def p08(ctx):
  rng = ctx.rng
  spec_sound(ctx)
  items = machines(ctx, ctx.size(4000, 40000), ctx.size(12000, 120000), ctx.size(400, 4000))
  tasks = []
  for tt, steps in items:
    runs = []
    for _ in range(ctx.size(3, 5)):
      b = rng.choice([1, 1, 1, 2, 2, 3, 4])
      w = rng.choice([2 * b, 2 * b + 1, 3 * b, 3 * b, 4 * b, 5 * b + 1])
      runs.append([b, w, rng.choice([50, 1000, 20000]), rng.choice([1, 3, 20, 100]), rng.choice([3, 20, 300]), rng.choice([3, 20, 300])])
    tasks.append({"tm": tms.to_text(tt), "runs": runs})
  small = [(tt, None) for j, tt in enumerate(all_2x2()) if ctx.thorough or j % 5 == ctx.seed % 5]
  for tt, _ in small:
    tasks.append({"tm": tms.to_text(tt), "runs": [[1, 2, 1000, 50, 100, 100], [1, 3, 1000, 50, 100, 100], [2, 4, 1000, 50, 100, 100]]})
  items += small
  ctx.count("machines", len(items))
  judge(ctx, "closed position set", "cps", tasks, items,
        lambda tt, run: {"dec": "cps", "p": run[0], "w": run[1]} if run[1] <= 3 and len(tt) * len(tt[0]) <= 12 else None)


def p09(ctx):
  rng = ctx.rng
  spec_sound(ctx)
  items = machines(ctx, ctx.size(15000, 60000), 500, ctx.size(4000, 20000))
  for _ in range(ctx.size(12000, 60000)):
    items.append(few_moves(rng))
  items += [(tt, None) for tt in all_2x2()]
  tasks = [{"tm": tms.to_text(tt), "runs": [[]]} for tt, _ in items]
  ctx.count("machines", len(items))
  judge(ctx, "reverse engineering", "rev", tasks, items, lambda tt, run: {"dec": "rev", "p": 0, "w": 0})


def few_moves(rng):
  """Machines whose writes and entries go in few directions: the argument's border cases."""
  while True:
    S, Y = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (4, 2), (2, 4)])
    sd = [rng.choice([0, 1, 2, 2]) for _ in range(Y)]
    qd = [rng.choice([0, 1, 2, 2]) for _ in range(S)]
    tt = []
    for q in range(S):
      row = []
      for s in range(Y):
        w, q2 = rng.randrange(Y), rng.randrange(S)
        ds = [x for x in (sd[w], qd[q2]) if x < 2]
        row.append([w, rng.choice(ds) if ds else rng.randrange(2), q2])
      tt.append(row)
    for _ in range(rng.choice([1, 1, 2])):
      tt[rng.randrange(S)][rng.randrange(Y)] = list(tms.UNDEF) if rng.random() < .5 else [rng.randrange(Y), rng.randrange(2), -1]
    ok, n, _ = tms.sim(tt, 300)
    if ok or rng.random() < .15:
      return tt, (n if ok else None)


def p10(ctx):
  rng = ctx.rng
  spec_sound(ctx)
  items = machines(ctx, ctx.size(8000, 50000), ctx.size(2000, 20000), ctx.size(2000, 15000))
  for _ in range(ctx.size(12000, 60000)):
    items.append(few_moves(rng))
  items += [(tt, None) for tt in all_2x2()]
  items += [(tms.random_core(rng, rng.randrange(1, 4), rng.randrange(2, 4), 0), None) for _ in range(60)]
  tasks = [{"tm": tms.to_text(tt), "runs": [[rng.choice([0, 1, 2, 3, 4, 6, 10, 20]), rng.choice([1, 2, 5, 10, 40])] for _ in range(3)]}
           for tt, _ in items]
  ctx.count("machines", len(items))
  judge(ctx, "backtracking", "backtrack", tasks, items,
        lambda tt, run: {"dec": "back", "p": min(run[0], 8), "w": 0} if run[1] <= 10 else None)

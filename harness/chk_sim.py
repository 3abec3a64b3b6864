"""Checks of the simulators against TuringMachine.tla through RunClaims.tla."""
import os
import subprocess

import tms
import vlib


def stops(rng, limit, count):
  out = set()
  for _ in range(count):
    if rng.random() < .5:
      out.add(rng.randrange(0, min(limit, 60)))
    else:
      out.add(int(limit ** rng.random()))
  out.add(limit)
  return sorted(out)


def machine_mix(ctx, n):
  """A varied list of machines: random, TNF random, corpus, mutants."""
  rng = ctx.rng
  sizes = [(1, 2), (2, 2), (3, 2), (4, 2), (5, 2), (6, 2), (2, 3), (2, 4), (3, 3), (2, 5), (4, 3), (3, 4), (8, 2), (2, 7), (12, 2), (3, 6)]
  pool = tms.corpus("halt") + tms.corpus("run") + tms.corpus("champ")
  out = []
  while len(out) < n:
    x = rng.random()
    S, Y = rng.choice(sizes)
    if x < .2:
      tt = tms.random_tm(rng, S, Y, halt_any=rng.random() < .5)
    elif x < .4:
      tt = tms.tnf_random(rng, S, Y, 300)
    else:
      tt = rng.choice(pool)[0]
      if x > .8:
        tt = tms.mutate(rng, tt, 1)
    out.append(tt)
  return out


def start_config(start):
  """[state, lowest position, cells] as the configuration a case starts from (head on 0)."""
  if not start:
    return []
  q, lo, cells = start
  left = [[[c], 1] for j, c in enumerate(cells) if lo + j < 0]
  left += [[[0], 1]] * (-lo - len(cells) if lo + len(cells) < 0 else 0)
  right = [[[c], 1] for j, c in reversed(list(enumerate(cells))) if lo + j >= 0]
  return [{"q": q, "dir": 1, "back": [], "l": left, "r": right}]


def judge_runs(ctx, items, recs, what, keyf, track=0, starts=None):
  """items: list of tt; recs: record() results giving lists of claims (one list per simulation)."""
  cases = []
  owner = {}
  for j, (tt, (st, runs)) in enumerate(zip(items, recs)):
    if st == "ok":
      for obs in runs:
        if obs:
          owner[len(cases)] = j
          cases.append({"id": len(cases), "tm": tt, "track": track, "obs": obs,
                        "init": start_config(starts[j]) if starts else []})
    elif st in ("exc", "hang"):
      ctx.violation(keyf(j, st), "%s: %s on %s: %s" % (what, "no answer" if st == "hang" else "exception",
                    tms.to_text(tt), (runs or "")[:400]), {"tm": tms.to_text(tt), "error": runs})
  if not cases:
    return {}
  verdicts, r = vlib.judge("RunClaims", cases, ctx)
  for cs in cases:
    v, det = verdicts[cs["id"]]
    if v != "ok":
      o = cs["obs"][int(det[0]) - 1]
      ctx.violation(keyf(owner[cs["id"]], v), "%s: clause %s fails for %s at claim %s (specified run is at step %s)" % (
        what, v, tms.to_text(cs["tm"]), str(o)[:300], det[1]), {"tm": tms.to_text(cs["tm"]), "claim": o, "clause": v})
  ctx.count("claims", sum(len(c["obs"]) for c in cases))
  return verdicts


def p01(ctx):
  rng = ctx.rng
  n = ctx.size(700, 4000)
  lim = ctx.size(4000, 20000)
  items = machine_mix(ctx, n)
  tasks = [{"tm": tms.to_text(tt), "stops": stops(rng, rng.choice([20, 120, 600, lim]), 8), "copy": rng.random() < .4}
           for tt in items]
  for t, tt in zip(tasks, items):
    if rng.random() < .15:    # start in some state on a written tape
      lo = -rng.randrange(0, 12)
      t["start"] = [rng.randrange(len(tt)), lo, [rng.randrange(len(tt[0])) for _ in range(rng.randrange(1, 9 - lo))]]
  recs = vlib.record("drv_sim", "direct", tasks, timeout=120)
  judge_runs(ctx, items, recs, "Python direct simulation", lambda j, v: "py:%s:%s" % (v, tasks[j]["tm"]),
             starts=[t.get("start") for t in tasks])
  ctx.sample({"python": tasks[0]})
  # C++ command line tool: halting step counts.
  build = vlib.cpp_build()
  items2 = [t for t in machine_mix(ctx, n) if len(t) < 26 and len(t[0]) < 10]
  items2 += [tt for tt, s in tms.corpus("champ") if s and s < ctx.size(30000, 400000)]
  cases = []
  names = {}
  for li, limit in enumerate([0, 1, 37, 300, lim, ctx.size(30000, 400000)]):
    part = items2[li::6] if limit < 20000 else items2[-ctx.size(60, 200):]
    inp = os.path.join(vlib.scratch(), "in.txt")
    outp = os.path.join(vlib.scratch(), "out.txt")
    with open(inp, "w") as f:
      f.writelines(tms.to_text(t) + "\n" for t in part)
    rc, so, se = vlib.run_cmd([os.path.join(build, "direct_sim_all"), inp, str(limit), outp], timeout=300)
    lines = open(outp).read().splitlines() if os.path.exists(outp) else []
    if rc != 0 or len(lines) != len(part):
      ctx.violation("cpp:run:%d" % limit, "direct_sim_all answered %d of %d machines (rc=%s) %s" % (
        len(lines), len(part), rc, se[-300:]))
      continue
    for tt, line in zip(part, lines):
      w = line.split()
      cid = len(cases)
      names[cid] = tms.to_text(tt)
      if len(w) != 3 or w[0] != tms.to_text(tt) or w[1] not in ("Halt", "Unknown"):
        ctx.violation("cpp:line:" + tms.to_text(tt), "direct_sim_all wrote %r for %s" % (line, tms.to_text(tt)))
        continue
      k = int(w[2])
      if w[1] == "Halt":
        obs = [{"k": "halt", "n": k, "score": -1, "fq": -1, "fs": -1, "undef": 2, "hastape": 0,
                "m": {"q": 0, "dir": 0, "back": [], "l": [], "r": []}}]
        if k > limit:
          ctx.violation("cpp:limit:" + names[cid], "direct_sim_all ran past its limit %d: %s" % (limit, line))
      else:
        obs = [{"k": "alive", "n": k}]
        if k != limit:
          ctx.violation("cpp:limit:" + names[cid], "direct_sim_all stopped at %d of %d steps" % (k, limit))
      cases.append({"id": cid, "tm": tt, "track": 0, "obs": obs})
  if cases:
    verdicts, r = vlib.judge("RunClaims", cases, ctx)
    for cs in cases:
      v, det = verdicts[cs["id"]]
      if v != "ok":
        ctx.violation("cpp:%s:%s" % (v, names[cs["id"]]), "C++ direct simulation: clause %s fails for %s: %s" % (
          v, names[cs["id"]], cs["obs"][0]), cs)
  # C++ simulator object: full configurations.
  probe = build_probe(build)
  ctx.extra["cpp_probe"] = bool(probe)
  if probe:
    items3 = [t for t in machine_mix(ctx, ctx.size(250, 1200)) if len(t) < 26 and len(t[0]) < 10]
    # machines that leave the initial allocation on both sides
    items3 += [tms.from_text(x) for x in ["1RB1RA_1LA1LB", "1RB0RA_0LA0LB", "1RA1LA", "1LB1LA_1RA1RB", "1LA1LA", "0RA0RA"]]
    items3 = [t for t in items3 if all(c[2] >= 0 or c[0] < 0 or True for r in t for c in r)]
    inp = []
    for tt in items3:
      inp.append(tms.to_text(tt) + " " + " ".join(map(str, stops(rng, rng.choice([40, 300, 650]), 4))))
    rc, so, se = vlib.run_cmd([probe], timeout=300, inp=("\n".join(inp) + "\n").encode())
    lines = so.splitlines()
    if rc != 0 or len(lines) != len(inp):
      ctx.violation("cpp:probe", "C++ simulator died (rc=%s) after %d of %d machines" % (rc, len(lines), len(inp)))
    else:
      recs = []
      for line in lines:
        obs = []
        for part in line.split(";"):
          w = [int(x) for x in part.split()]
          if w:
            obs.append({"k": "dir", "n": w[0], "q": w[1], "p": w[2], "lo": w[6], "w": w[7:]})
            if w[3]:
              obs.append({"k": "halt", "n": w[0], "score": -1, "fq": w[4], "fs": w[5], "undef": 2, "hastape": 0,
                          "m": {"q": 0, "dir": 0, "back": [], "l": [], "r": []}})
        recs.append(("ok", [obs]))
      judge_runs(ctx, items3, recs, "C++ direct simulation", lambda j, v: "cppobj:%s:%s" % (v, tms.to_text(items3[j])))


def build_probe(build):
  out = os.path.join(vlib.scratch(), "probe")
  src = os.path.join(vlib.REPO, "cpp", "src")
  lib = os.path.join(build, "liball_libs.a")
  r = subprocess.run(["g++", "-std=c++17", "-O2", "-I", src, os.path.join(vlib.VERIF, "harness", "probe.cpp"), lib,
                      "-o", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  return out if r.returncode == 0 else None


# ------------------------------------------------------------------ P02, P03

def add_canaries(cases, rng, k=6):
  """Copies of recorded cases with one falsified claim: TLC must reject each
  (guards against a vacuous specification or harness)."""
  out = []
  pool = [c for c in cases if any(o["k"] in ("cfg", "halt", "dir", "seen") for o in c["obs"])]
  for j in range(min(k, len(pool))):
    src = rng.choice(pool)
    obs = [dict(o) for o in src["obs"]]
    idx = [x for x, o in enumerate(obs) if o["k"] in ("cfg", "halt", "dir", "seen")]
    x = rng.choice(idx)
    o = obs[x]
    if o["k"] == "cfg":
      m = dict(o["m"])
      m["l"] = [[[1], 1]] + m["l"] + [[[0], 1]] if rng.random() < .5 else m["l"]
      if m["l"] == o["m"]["l"]:
        m["q"] = o["m"]["q"] + 1
      o["m"] = m
    elif o["k"] == "halt":
      o["n"] += 1
    elif o["k"] == "dir":
      o["p"] += 1
    else:
      o["w"] = [[q, n + 1] for q, n in o["w"]]
      if not o["w"]:
        continue
    out.append({"id": 10**7 + j, "tm": src["tm"], "track": src["track"], "obs": obs, "init": src.get("init", [])})
  return out


def judge_cases(ctx, cases, what, keyf, canaries=6, describe=None):
  if not cases:
    return {}
  can = add_canaries(cases, ctx.rng, canaries)
  verdicts, r = vlib.judge("RunClaims", cases + can, ctx)
  ctx.traces -= len(can)
  for cs in can:
    if verdicts[cs["id"]][0] in ("ok", "inconclusive"):
      # Falsified claims must be rejected. (If the recorded run is itself wrong this does
      # not matter: a violation is reported anyway.)
      if all(verdicts[c["id"]][0] in ("ok", "inconclusive") for c in cases):
        raise vlib.MachineryError("canary accepted: %s" % str(cs)[:2000])
  ctx.count("canaries_rejected", len(can))
  for cs in cases:
    v, det = verdicts[cs["id"]]
    if v == "inconclusive":
      ctx.count("inconclusive")
    elif v != "ok":
      o = cs["obs"][int(det[0]) - 1]
      ctx.violation(keyf(cs["id"], v), "%s: clause %s fails for %s %s at claim %s (specified run is at step %s)" % (
        what, v, tms.to_text(cs["tm"]), describe(cs["id"]) if describe else "", str(o)[:300], det[1]),
        {"tm": tms.to_text(cs["tm"]), "claim": o, "clause": v, "run": describe(cs["id"]) if describe else None})
  ctx.count("claims", sum(len(c["obs"]) for c in cases))
  return verdicts


def macro_tasks(ctx, n, prover):
  rng = ctx.rng
  halt = tms.corpus("halt")
  champ = [x for x in tms.corpus("champ") if not x[1] or x[1] < ctx.size(60000, 1500000)]
  run = tms.corpus("run") + tms.corpus("named") + tms.corpus("quasi")
  out = []
  for j in range(n):
    x = rng.random()
    steps = None
    if x < .35:
      tt, steps = rng.choice(halt)
    elif x < .5:
      tt, steps = rng.choice(champ)
    elif x < .8:
      tt = rng.choice(run)[0]
    elif x < .9:
      tt = tms.mutate(rng, rng.choice(run + halt)[0])
    else:
      tt = tms.random_tm(rng, rng.randrange(1, 7), rng.randrange(2, 5), halt_any=True)
    block = rng.choice([1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 12])
    offset = rng.randrange(1, block) if block > 1 and rng.random() < .4 else 0
    opts = {"prover": prover}
    if prover:
      opts["recursive"] = rng.random() < .6
      opts["limited_rules"] = rng.random() < .35
      if opts["recursive"] and rng.random() < .3:
        opts["exp_linear_rules"] = True
        opts["exp_meta_linear_rules"] = rng.random() < .5
      opts["max_num_reps"] = rng.choice([10, 10, 1, 3])
      if rng.random() < .1:
        opts["max_prover_configs"] = rng.choice([1, 5, 50])
    if rng.random() < .1:
      opts["compute_steps"] = False
    big = rng.random() < .15
    maxsteps = ctx.size(60000 if big else 6000, 400000 if big else 30000)
    loops = 400 if not prover else 600
    if rng.random() < .05:
      loops = 4000
    inf_bound = max(ctx.size(4000, 30000), min((steps or 0) + 10, ctx.size(60000, 500000)))
    out.append((tt, {"tm": tms.to_text(tt), "block": block, "offset": offset, "back": rng.random() < .5,
                     "opts": opts, "loops": loops, "maxsteps": maxsteps, "maxobs": ctx.size(70, 150),
                     "dens": .1, "track": 1 if rng.random() < .7 else 0, "seed": rng.random(),
                     "inf_bound": inf_bound}))
  return out


def run_macro(ctx, tasks, what):
  recs = vlib.record("drv_sim", "macro", [t for _, t in tasks], timeout=200)
  cases = []
  desc = lambda j: {k: v for k, v in tasks[j % len(tasks)][1].items() if k in ("block", "offset", "back", "opts")}
  for j, ((tt, task), (st, res)) in enumerate(zip(tasks, recs)):
    if st == "ok":
      ctx.count("rule_moves", res["rules"]); ctx.count("chain_moves", res["chains"]); ctx.count("macro_moves", res["macros"])
      for k, v in res.get("kinds", {}).items():
        ctx.count("rules_" + k, v)
      if res["obs"]:
        cases.append({"id": j, "tm": tt, "track": task["track"], "obs": res["obs"]})
      for v, (init, obs) in enumerate(res.get("jumps", [])):
        cases.append({"id": j + (v + 1) * len(tasks), "tm": tt, "track": task["track"], "obs": obs, "init": [init]})
      ctx.count("rule_replays_from_other_tapes", len(res.get("jumps", [])))
    elif st in ("exc", "hang"):
      ctx.violation("%s:%s" % (st, task["tm"]), "%s: %s on %s %s: %s" % (
        what, "no answer" if st == "hang" else "exception", task["tm"], desc(j), (res or "")[-600:]), task)
  judge_cases(ctx, cases, what, lambda j, v: "%s:%s:%s" % (v, tasks[j % len(tasks)][1]["tm"], vlib.short_hash(desc(j))), describe=desc)
  for c in cases[:3]:
    ctx.sample({"tm": tms.to_text(c["tm"]), "run": desc(c["id"]), "claims": len(c["obs"])})


def p02(ctx):
  rng = ctx.rng
  tasks = macro_tasks(ctx, ctx.size(900, 6000), False)
  # Long runs inside one block: whole stretches of the run are a single macro transition.
  halt = [x for x in tms.corpus("halt") + tms.corpus("champ") if x[1] and 100 < x[1] < ctx.size(9000, 60000)]
  for tt, t in macro_tasks(ctx, ctx.size(500, 3000), False):
    if rng.random() < .7:
      tt, steps = rng.choice(halt)
      t["inf_bound"] = steps + 10
    t["tm"] = tms.to_text(tt)
    t["block"] = rng.choice([9, 10, 12, 15, 20, 30, 50])
    t["offset"] = rng.choice([0, t["block"] // 2, rng.randrange(1, t["block"])])
    tasks.append((tt, t))
  run_macro(ctx, tasks, "accelerated simulation")


# Machines (of the repository's collection) whose acceleration needs linear / exponential rules.
LINEAR_RULE_RUNS = [
  ("1RB0LA_1LC1LF_0LD0LC_0LE0LB_1RE0RA_1RZ1LD", 3, (True,), 2400),
  ("1RB0LD_1RC0RF_1LC1LA_0LE1RZ_1LF0RB_0RC0RE", 3, (True,), 1500),
  ("1RB2LA1RA4LA5RA0LB_1LA3RA2RB1RZ3RB4LA", 2, (False, True), 1500),
  ("1RB2LA5LB0RA1RA3LB_1LA4LA3LB3RB3RB1RZ", 2, (True,), 1500),
  ("1RB0LB1RZ3LA_0LC3RB3RC1LB_2RB2LA3RA1LC", 2, (False, True), 1900),
]


def p03(ctx):
  rng = ctx.rng
  tasks = macro_tasks(ctx, ctx.size(900, 8000), True)
  for _, t in tasks:
    t["jumps"] = 2
  # Machines selected because their simulation proves and applies many rules.
  rc = tms.rules_corpus()
  for tt, block, back, rec, lim in rc:
    for variant in range(ctx.size(1, 3)):
      t = dict(macro_tasks(ctx, 1, True)[0][1])
      t.update(tm=tms.to_text(tt), block=block, offset=0, back=back, maxsteps=ctx.size(60000, 250000), loops=1500,
               maxobs=ctx.size(60, 200), dens=.02, inf_bound=ctx.size(5000, 40000))
      t["jumps"] = ctx.size(4, 10)
      t["opts"] = dict(t["opts"], recursive=rec, limited_rules=lim, compute_steps=True)
      if variant == 1 or (variant == 0 and not lim and rng.random() < .35):
        t["opts"]["limited_rules"] = not lim
      elif variant == 2:
        t["block"] = rng.choice([1, 2, 3, 4])
      tasks.append((tt, t))
  # ... and machines with rules of the rarer kinds (fixed points, multiplication, two limits, meta-infinite).
  for tt, block, back, rec, lim in tms.rules_corpus("rules_rare"):
    t = dict(macro_tasks(ctx, 1, True)[0][1])
    t.update(tm=tms.to_text(tt), block=block, offset=0, back=back, maxsteps=20000, loops=1500, maxobs=30, dens=.01,
             inf_bound=ctx.size(3000, 40000), jumps=ctx.size(10, 30), until_loops=1500)
    t["opts"] = dict(t["opts"], recursive=rec, limited_rules=lim, compute_steps=True, exp_linear_rules=rng.random() < .3,
                     max_num_reps=10, max_prover_configs=100000)
    tasks.append((tt, t))
  # Machines with higher rules (linear, general, exponential): proven on large tapes, replayed on small ones.
  for tt, _ in tms.corpus("named"):
    t = dict(macro_tasks(ctx, 1, True)[0][1])
    t.update(tm=tms.to_text(tt), block=rng.choice([1, 1, 2, 3, 6]), offset=0, maxsteps=20000, loops=3000, dens=.01,
             inf_bound=ctx.size(5000, 40000), jumps=ctx.size(8, 20), until_loops=ctx.size(1500, 6000))
    t["opts"] = dict(t["opts"], recursive=True, compute_steps=True, exp_linear_rules=rng.random() < .3, limited_rules=rng.random() < .2)
    tasks.append((tt, t))
  for text, block, backs, loops in LINEAR_RULE_RUNS:
    for back in backs:
      for meta in (False, True):
        for steps in (False, True):
          t = dict(tasks[0][1], tm=text, block=block, back=back, offset=0, maxsteps=20000, maxobs=30, dens=.01, loops=loops,
                   until_loops=loops, jumps=ctx.size(12, 40), inf_bound=ctx.size(6000, 60000), track=1, seed=rng.random(),
                   opts={"prover": True, "recursive": True, "exp_linear_rules": not steps, "exp_meta_linear_rules": meta,
                         "compute_steps": steps, "max_num_reps": 10})
          tasks.append((tms.from_text(text), t))
  run_macro(ctx, tasks, "proven rules")

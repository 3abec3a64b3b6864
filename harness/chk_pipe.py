"""Checks of the analysis pipeline's verdicts (P04, P05, P11) and Lin recurrence (P06)."""
import os
import subprocess

import tms
import vlib
from chk_sim import judge_cases

EMPTY_M = {"q": -1, "dir": 0, "back": [], "l": [], "r": []}


def halt_claim(n, score=-1, fq=-1, fs=-1, undef=2, k="halt"):
  return {"k": k, "n": n, "score": score, "fq": fq, "fs": fs, "undef": undef, "hastape": 0, "m": EMPTY_M}


def random_args(rng, steps=True):
  """A random setting of the pipeline's options."""
  a = []
  loops = rng.choice([0, 30, 100, 300, 1000, 1000])
  if loops == 0:
    loops = 2000
  a += ["--max-loops", str(loops)]
  if rng.random() < .4:
    a += ["--tape-limit", str(rng.choice([5, 20, 200]))]
  x = rng.random()
  if x < .45:
    a += ["--lin-steps", "0"]
  elif x < .7:
    a += ["--lin-steps", str(rng.choice([2, 3, 8, 20, 500, 1000]))]
  if rng.random() < .3:
    a += ["--lin-min"]
  if rng.random() < .5:
    a += ["--no-reverse-engineer"]
  if rng.random() < .5:
    a += ["--no-ctl"]
  if rng.random() < .08:
    a += ["--no-sim"]
  x = rng.random()
  if x < .5:
    a += ["--block-size", str(rng.choice([1, 1, 2, 2, 3, 4, 6, 10, 24]))]
  elif x < .6:
    a += ["--max-block-size", str(rng.choice([1, 2, 5]))]
  elif x < .65:
    a += ["--block-mult", str(rng.choice([1, 2, 3]))]
  if rng.random() < .4:
    a += ["--no-backsymbol"]
  x = rng.random()
  if x < .15:
    a += ["--no-prover"]
  elif x < .55:
    a += ["--recursive"]
    if rng.random() < .25:
      a += ["--exp-linear-rules"]
  if rng.random() < .3:
    a += ["--limited-rules"]
  if rng.random() < .07:
    a += ["--no-steps"]
  return a


def pick(ctx, kind, limit):
  """(tt, untrusted halting step or None)."""
  rng = ctx.rng
  pools = _pools(limit)
  x = rng.random()
  if kind == "halt":
    if x < .5:
      return rng.choice(pools["halt_big"])
    if x < .8:
      return rng.choice(pools["halt"])
    if x < .9:
      return rng.choice(pools["champ"])
    return tms.mutate(rng, rng.choice(pools["halt"])[0]), None
  if x < .3:
    return rng.choice(pools["run_big"])
  if x < .6:
    return rng.choice(pools["run"])
  if x < .75:
    return rng.choice(pools["quasi"])
  if x < .85:
    return tms.tnf_random(rng, rng.randrange(2, 6), rng.randrange(2, 4), 200), None
  if x < .95:
    return tms.mutate(rng, rng.choice(pools["run"])[0]), None
  return tms.random_tm(rng, rng.randrange(1, 6), rng.randrange(2, 5), halt_any=True), None


_pool_cache = {}


def _pools(limit):
  if not _pool_cache:
    for n in ("halt", "halt_big", "champ", "run", "run_big", "quasi", "lr"):
      _pool_cache[n] = tms.corpus(n)
    _pool_cache["champ"] = [x for x in _pool_cache["champ"] if x[1] and x[1] < limit]
  return _pool_cache


# Failure modes the code documents for itself (not verdicts).
def run_pipeline(ctx, items, prop):
  """items: list of (tt, steps, args).  Returns [(tt, steps, args, result)]."""
  tasks = [{"tm": tms.to_text(tt), "args": args} for tt, _, args in items]
  # The pipeline has no bound of its own here (its timer is property P20): a run that takes
  # too long is abandoned and gives no verdict.
  recs = vlib.record("drv_pipe", "pipeline", tasks, timeout=ctx.size(12, 60))
  slow = sum(st == "hang" for st, _ in recs)
  ctx.count("abandoned", slow)
  if slow > len(recs) / 4:
    raise vlib.MachineryError("%d of %d analyses did not end" % (slow, len(recs)))
  out = []
  for (tt, steps, args), (st, res) in zip(items, recs):
    if st == "exc":
      ctx.violation("%s:%s:%s" % (st, tms.to_text(tt), " ".join(args)), "analysis of %s with %s: exception %s" % (
        tms.to_text(tt), args, (res or "")[-500:]), {"tm": tms.to_text(tt), "args": args})
    elif st == "ok":
      ctx.count("analysed")
      if res["gave_up"]:
        ctx.count("gave_up")
      out.append((tt, steps, args, res))
  return out


def halting_obs(ctx, res, steps, bound):
  st = res["st"]
  limit = ctx.size(60000, 2000000)
  if st["score"] is None or st["steps"] is None:
    return [halt_claim(bound, -2, k="incomplete")]
  if any(isinstance(st[x], int) and st[x] < 0 for x in ("steps", "score")):
    return [halt_claim(bound, -2, k="negative")]
  if not res["compute_steps"]:
    if st["score"] == "big":
      ctx.count("too_big")
      return None
    return [halt_claim(steps + 10 if steps and bound < steps < limit else bound, st["score"], st["fq"], st["fs"], k="halt?")]
  if st["steps"] == "big" or st["steps"] > limit:
    # Too long to follow to its end, but it must not end earlier.
    ctx.count("too_long")
    return [{"k": "inf", "n": steps + 5 if steps and steps < limit else bound}]
  if st["score"] == "big":
    return [halt_claim(bound, -2, k="negative")]
  return [halt_claim(st["steps"], st["score"], st["fq"], st["fs"])]


def verdict_cases(ctx, done, halting, infinite, bound):
  cases, desc = [], {}
  for tt, steps, args, res in done:
    st = res["st"]
    if not st["decided"]:
      ctx.count("undecided")
      continue
    cid = len(cases)
    if st["halting"]:
      ctx.count("halting")
      if not halting:
        continue
      obs = halting_obs(ctx, res, steps, bound)
    else:
      ctx.count("infinite")
      if not infinite:
        continue
      ctx.count("infinite_reason_%d" % st["reason"])
      obs = [{"k": "inf", "n": steps + 5 if steps and steps < ctx.size(60000, 10**6) else bound}]
    if obs is None:
      continue
    if obs[0]["k"] == "negative":
      ctx.violation("impossible:%s" % tms.to_text(tt), "impossible step count or score: %s %s %s" % (tms.to_text(tt), args, st))
      continue
    if obs[0]["k"] == "incomplete":
      ctx.violation("incomplete:%s" % tms.to_text(tt), "halting verdict without step count or score: %s %s" % (tms.to_text(tt), args))
      continue
    desc[cid] = args
    cases.append({"id": cid, "tm": tt, "track": 0, "obs": obs})
  return cases, desc


def p04(ctx):
  rng = ctx.rng
  items = []
  for j in range(ctx.size(8000, 60000)):
    tt, steps = pick(ctx, "halt", ctx.size(40000, 1500000))
    items.append((tt, steps, [] if j % 9 == 0 else random_args(rng)))
  done = run_pipeline(ctx, items, "P04")
  cases, desc = verdict_cases(ctx, done, True, False, 3000)
  judge_cases(ctx, cases, "halting verdict", lambda j, v: "%s:%s" % (v, tms.to_text(cases[j]["tm"])),
              describe=lambda j: desc[j])
  for c in cases[:3]:
    ctx.sample({"tm": tms.to_text(c["tm"]), "args": desc[c["id"]], "claim": c["obs"][0]})
  quick_sim(ctx, ctx.size(90, 800), True)


def p05(ctx):
  rng = ctx.rng
  items = []
  lim = ctx.size(40000, 1500000)
  for j in range(ctx.size(24000, 150000)):
    tt, steps = pick(ctx, "halt" if j % 4 else "run", lim)
    args = random_args(rng)
    if rng.random() < .5:
      # force the stages after the first ones to decide
      args = [a for a in args if a not in ("--no-sim",)] + (["--lin-steps", "0"] if rng.random() < .7 else []) + \
             (["--no-ctl"] if rng.random() < .5 else []) + ["--no-reverse-engineer"] * (rng.random() < .5)
    items.append((tt, steps, args))
  done = run_pipeline(ctx, items, "P05")
  cases, desc = verdict_cases(ctx, done, False, True, ctx.size(2500, 20000))
  judge_cases(ctx, cases, "infinite verdict", lambda j, v: "%s:%s" % (v, tms.to_text(cases[j]["tm"])),
              describe=lambda j: desc[j])
  for c in cases[:3]:
    ctx.sample({"tm": tms.to_text(c["tm"]), "args": desc[c["id"]], "claim": c["obs"][0]})


def _number(text):
  """The exact value in a line such as '47_176_870  =  47_176_870' (None if not given in full)."""
  v = text.split("=")[-1].strip().replace("_", "")
  return int(v) if v.isdigit() and len(v) < 10 else None


def parse_quick_sim(out):
  tail = out[out.rfind("Num Nonzeros"):]
  r = {}
  for line in tail.splitlines():
    if line.startswith("Turing Machine Halted"):
      r["end"] = "halt"
    elif line.startswith("Turing Machine reached Undefined"):
      r["end"] = "undef"
    elif line.startswith("Turing Machine proven Infinite"):
      r["end"] = "inf"
    elif line.startswith("State:"):
      r["state"] = line.split(":")[1].strip()
    elif line.startswith("Symbol:"):
      r["symbol"] = line.split(":")[1].strip()
    elif line.startswith("Steps:"):
      r["steps"] = _number(line.split(":", 1)[1])
    elif line.startswith("Nonzeros:"):
      r["score"] = _number(line.split(":", 1)[1])
  return r


def _qs(item):
  cmd = [vlib.PY, os.path.join(vlib.CODE, "Quick_Sim.py"), item["tm"], "-q", "--max-loops", "3000"] + item["args"]
  return vlib.run_cmd(cmd, timeout=25, env=vlib.repo_env())


def quick_sim(ctx, n, halting):
  """The command line simulator's printed results."""
  from concurrent.futures import ThreadPoolExecutor
  rng = ctx.rng
  items = []
  for _ in range(n):
    tt, steps = pick(ctx, "halt", ctx.size(40000, 1500000))
    args = []
    if rng.random() < .5:
      args += ["-n", str(rng.choice([1, 2, 3, 4]))]
    if rng.random() < .4:
      args += ["--no-backsymbol"]
    if rng.random() < .5:
      args += ["-r"]
    elif rng.random() < .3:
      args += ["--no-prover"]
    if rng.random() < .2:
      args += ["--limited-rules"]
    start = 0
    if rng.random() < .35:
      start = rng.randrange(len(tt))
      args += ["-s", chr(65 + start)]
    items.append({"tm": tms.to_text(tt), "tt": tt, "args": args, "start": start, "known": None if start else steps})
  with ThreadPoolExecutor(vlib.CORES) as ex:
    outs = list(ex.map(_qs, items))
  cases = []
  for it, (rc, so, se) in zip(items, outs):
    if rc is None:
      ctx.count("quick_sim_abandoned")
      continue
    if rc != 0:
      if "ExpInt" in se:
        continue
      ctx.violation("quicksim:" + it["tm"], "Quick_Sim failed on %s %s: %s" % (it["tm"], it["args"], se[-400:]))
      continue
    r = parse_quick_sim(so)
    ctx.count("quick_sim_runs")
    if r.get("end") in ("halt", "undef"):
      if r.get("steps") is None or r.get("score") is None or r["steps"] > ctx.size(60000, 2000000):
        # printed as a formula, or too long to follow: it must not halt earlier
        known = it["known"]
        if known and known <= 30000 and "steps" in r:
          cases.append({"id": len(cases), "tm": it["tt"], "track": 0, "obs": [{"k": "inf", "n": known + 5}], "args": 0, "init": []})
        continue
      fq = fs = -1
      if r["end"] == "undef":
        fq = "ABCDEFGHIJKLMNOPQRSTUVWXYZ".index(r["state"]) if r["state"].isalpha() else int(r["state"])
        fs = int(r["symbol"])
      obs = [halt_claim(r["steps"], r["score"], fq, fs, 1 if r["end"] == "undef" else 0)]
    elif r.get("end") == "inf":
      obs = [{"k": "inf", "n": 5000}]
    else:
      continue
    ctx.count("quick_sim_verdicts")
    cases.append({"id": len(cases), "tm": it["tt"], "track": 0, "obs": obs, "args": 0,
                  "init": [{"q": it["start"], "dir": 1, "back": [], "l": [], "r": []}] if it["start"] else []})
  judge_cases(ctx, cases, "Quick_Sim", lambda j, v: "quicksim:%s:%s" % (v, tms.to_text(cases[j]["tm"])))


# ------------------------------------------------------------------ P06, P11

def lr_case(cid, tt, k, s=0, p=0, o=0, exact=0, n=0, score=-1, fq=-1, fs=-1, qk="no", qn=0, qs=0):
  return {"id": cid, "tm": tt, "k": k, "s": s, "p": p, "o": o, "exact": exact, "n": n, "score": score,
          "fq": fq, "fs": fs, "qk": qk, "qn": qn, "qs": qs}


def quasi_fields(st):
  if not st["qdecided"]:
    return {}
  if st["quasi"]:
    if st["qsteps"] is None:
      return {"qk": "q", "qn": -1, "qs": st["qstate"]}      # a claim without its step count
    if not isinstance(st["qsteps"], int):
      return {}
    return {"qk": "q", "qn": st["qsteps"], "qs": st["qstate"]}
  return {"qk": "nq"}


def judge_lr(ctx, cases, what, names):
  if not cases:
    return
  rng = ctx.rng
  can = []
  for src in rng.sample(cases, min(12, len(cases))):
    c = dict(src, id=10**7 + len(can))
    if c["k"] == "lr":
      x = rng.randrange(3)
      if x == 0:
        c["p"] *= 2
        c["o"] *= 2
      elif x == 1:
        c["o"] += 1
      elif c["s"] > 0 and c["exact"]:
        c["s"] += 1
      else:
        c["p"] += 1
        c["o"] += 1
    elif c["k"] == "halt":
      c["n"] += 1
    else:
      continue
    can.append(c)
  verdicts, r = vlib.judge("LinRecur", cases + can, ctx)
  ctx.traces -= len(can)
  bad = [c for c in cases if verdicts[c["id"]][0] not in ("ok", "bad-hint")]
  if not bad:
    for c in can:
      if verdicts[c["id"]][0] == "ok":
        raise vlib.MachineryError("canary accepted: %s" % c)
  ctx.count("canaries_rejected", len(can))
  for c in bad:
    v = verdicts[c["id"]][0]
    ctx.violation("%s:%s:%s" % (what, v, tms.to_text(c["tm"])), "%s: clause %s fails for %s %s" % (
      what, v, names.get(c["id"], ""), {k: x for k, x in c.items() if k != "tm"}), dict(c, tm=tms.to_text(c["tm"])))
  for c in cases:
    ctx.count(what.replace(" ", "_") + "_" + c["k"])
    if verdicts[c["id"]][0] == "bad-hint":
      ctx.count("bad_hints")


LR_KNOWN = ["1RB---_0LC0LB_0LD1LC_1RD0RE_1LB1LA"]


def lr_machines(ctx, n):
  rng = ctx.rng
  pools = _pools(40000)
  out = []
  for _ in range(n):
    x = rng.random()
    if x < .25:
      tt = tms.tnf_random(rng, rng.randrange(2, 6), rng.randrange(2, 5), 300)
    elif x < .5:
      tt = rng.choice(pools["run_big"])[0]
    elif x < .65:
      tt = rng.choice(pools["quasi"])[0]
    elif x < .8:
      tt = rng.choice(pools["halt_big"])[0]
    else:
      tt = tms.mutate(rng, rng.choice(pools["run"] + pools["quasi"])[0])
    if rng.random() < .5:
      tt = mirror(tt)
    out.append(tt)
  return out


def mirror(tt):
  return [[[w, 1 - d, q] if w >= 0 else [w, d, q] for w, d, q in row] for row in tt]


def py_lr_cases(ctx, tts, maxes):
  rng = ctx.rng
  tasks = [{"tm": tms.to_text(tt), "max_steps": mx, "min": rng.random() < .6} for tt, mx in zip(tts, maxes)]
  recs = vlib.record("drv_pipe", "lin_recur", tasks, timeout=120)
  cases, names = [], {}
  for tt, t, (st, r) in zip(tts, tasks, recs):
    if st in ("exc", "hang"):
      ctx.violation("py:%s:%s:%d" % (st, t["tm"], t["max_steps"]), "Lin_Recur_Detect on %s max_steps=%d: %s" % (
        t["tm"], t["max_steps"], (r or "no answer")[-400:]), t)
      continue
    if st != "ok":
      continue
    cid = len(cases)
    s = r["st"]
    names[cid] = "python %s" % t
    if r["success"]:
      if not s["decided"] or s["halting"]:
        ctx.violation("py:status:" + t["tm"], "recurrence found but status is %s" % s, t)
      cases.append(lr_case(cid, tt, "lr", r["s"], r["p"], r["o"], 1 if t["min"] else 0, **quasi_fields(s)))
    elif s["decided"] and s["halting"]:
      q = quasi_fields(s)
      cases.append(lr_case(cid, tt, "halt", n=s["steps"], score=s["score"], fq=s["fq"], fs=s["fs"], **q))
    elif s["decided"]:
      ctx.violation("py:status:" + t["tm"], "called infinite without a recurrence: %s" % s, t)
    elif t["max_steps"]:
      cases.append(lr_case(cid, tt, "none", n=t["max_steps"], exact=1 if t["max_steps"] <= 600 else 0))
  return cases, names


def wide_machines(rng, n):
  """Machines that reach far from their start, to either side."""
  pools = _pools(40000)
  cand = [x[0] for k in ("run", "run_big", "quasi") for x in pools.get(k, [])]
  out = []
  while len(out) < n:
    # "lr": late or long-period recurrences
    tt = rng.choice(cand) if rng.random() < .4 else rng.choice(pools["lr"])[0]
    if rng.random() < .5:
      tt = mirror(tt)
    if rng.random() < .1:
      tt = tms.mutate(rng, tt)
    _, _, cells = tms.sim(tt, 5000)
    if cells > 30:
      out.append(tt)
  return out


def p06(ctx):
  rng = ctx.rng
  n = ctx.size(3600, 16000)
  tts = lr_machines(ctx, n)
  maxes = [rng.choice([2, 3, 5, 17, 64, 127, 300, 1000, ctx.size(2000, 8000)]) for _ in tts]
  wide = wide_machines(rng, ctx.size(500, 3000))
  tts += wide
  maxes += [rng.choice([2000, 8000]) for _ in wide]
  # limits of 0 (unlimited) only for machines that are known to be decided
  cases, names = py_lr_cases(ctx, tts, maxes)
  judge_lr(ctx, cases, "Python Lin recurrence", names)
  for c in cases[:4]:
    ctx.sample({k: (tms.to_text(v) if k == "tm" else v) for k, v in c.items()})
  # C++ detector through its command line tool.
  build = vlib.cpp_build()
  exe = os.path.join(build, "lin_recur")
  tts2 = lr_machines(ctx, ctx.size(1800, 8000))
  logs = [rng.choice([1, 2, 4, 6, 8, 10, ctx.size(11, 13)]) for _ in tts2]
  # Machines that go far from their start, where the tape has to grow.
  wide = wide_machines(rng, ctx.size(700, 4000))
  tts2 += wide
  logs += [rng.choice([11, 12, 13]) for _ in wide]
  # ... and reach the last cell of what the tape has then.
  edge = [x[0] for x in tms.corpus("lr_wide")]
  tts2 += edge
  logs += [12 for _ in edge]
  path = os.path.join(vlib.scratch(), "lr_in.txt")
  with open(path, "w") as f:
    f.writelines(tms.to_text(t) + "\n" for t in tts2)
  from concurrent.futures import ThreadPoolExecutor
  with ThreadPoolExecutor(vlib.CORES) as ex:
    outs = list(ex.map(lambda j: vlib.run_cmd([exe, path, str(j + 1), str(logs[j])], timeout=100), range(len(tts2))))
  cases, names = [], {}
  for j, (rc, so, se) in enumerate(outs):
    text = tms.to_text(tts2[j])
    d = dict(l.split(": ", 1) for l in so.splitlines() if ": " in l)
    if rc != 0 or "is_halted" not in d or "is_lin_recurrent" not in d:
      ctx.violation("cpp:%s" % text, "lin_recur failed (rc=%s) on %s: %s" % (rc, text, se[-300:]))
      continue
    cid = len(cases)
    names[cid] = "c++ max_steps=2^%d" % logs[j]
    if d["is_halted"] == "1":
      cases.append(lr_case(cid, tts2[j], "halt", n=int(d["steps_run"]), fq=int(d["last_state"]), fs=int(d["last_symbol"])))
    elif d["is_lin_recurrent"] == "1":
      cases.append(lr_case(cid, tts2[j], "lr", int(d["start_step"]), int(d["period"]), int(d["offset"])))
    else:
      cases.append(lr_case(cid, tts2[j], "none", n=2 ** logs[j], exact=1 if logs[j] <= ctx.size(11, 12) else 0))
  judge_lr(ctx, cases, "C++ Lin recurrence", names)


def p11(ctx):
  rng = ctx.rng
  # Verdicts of the whole pipeline on machines with a known (untrusted) translated cycle.
  items = []
  pools = _pools(40000)
  for j in range(ctx.size(6000, 40000)):
    x = rng.random()
    if x < .35:
      tt = rng.choice(pools["quasi"])[0]
    elif x < .5:
      tt = tms.mutate(rng, rng.choice(pools["quasi"])[0])
    elif x < .7:
      tt = tms.tnf_random(rng, rng.randrange(2, 6), rng.randrange(2, 4), 300)
    elif x < .85:
      tt = rng.choice(pools["run"])[0]
    elif x < .92:
      tt = rng.choice(pools["halt"])[0]
    else:
      tt = prefix_machine(rng)
    if rng.random() < .4:
      tt = mirror(tt)
    args = random_args(rng)
    if rng.random() < .6:
      args = [a for a in args if a != "--no-sim"] + ["--lin-steps", "0"] * (rng.random() < .8) + ["--no-reverse-engineer", "--no-ctl"]
    items.append((tt, None, args))
  done = run_pipeline(ctx, items, "P11")
  hints = vlib.record("drv_pipe", "lr_hint", [{"tm": tms.to_text(tt), "limit": ctx.size(1000, 8000)} for tt, _, _, _ in done], timeout=60)
  cases, names, rcases = [], {}, []
  for (tt, _, args, res), (hs, hint) in zip(done, hints):
    st = res["st"]
    if not st["qdecided"]:
      ctx.count("no_quasihalting_claim")
      continue
    q = quasi_fields(st)
    if st["decided"] and st["halting"]:
      if q.get("qk") == "q":
        ctx.violation("halting:" + tms.to_text(tt), "halting machine %s recorded as quasihalting" % tms.to_text(tt))
      continue
    if not q:
      continue
    if hs == "ok" and hint:
      cid = len(cases)
      names[cid] = "pipeline %s" % " ".join(args)
      cases.append(lr_case(cid, tt, "hint", hint[0], hint[1], **q))
      ctx.count("claims_" + q["qk"])
    elif q["qk"] == "q" and q["qn"] < ctx.size(20000, 200000):
      # Not a translated cycle: the state must be visited at that step and not within a horizon after it.
      ctx.count("claims_horizon")
      n0 = q["qn"]
      rcases.append({"id": len(rcases), "tm": tt, "track": 1, "obs": [
        {"k": "last", "n": n0, "q": q["qs"]},
        {"k": "quasi", "n": n0 + ctx.size(8000, 60000), "from": n0, "dead": [q["qs"]]}]})
  judge_lr(ctx, cases, "quasihalting verdict", names)
  judge_cases(ctx, rcases, "quasihalting verdict", lambda j, v: "%s:%s" % (v, tms.to_text(rcases[j]["tm"])), canaries=0)
  # The detector's own claims.
  tts = lr_machines(ctx, ctx.size(700, 5000))
  cases, names = py_lr_cases(ctx, tts, [rng.choice([127, 300, 1000]) for _ in tts])
  cases = [c for c in cases if c["qk"] != "no"]
  judge_lr(ctx, cases, "Lin recurrence quasihalting", names)


def prefix_machine(rng):
  """A machine that leaves some states behind and then cycles in place or drifts."""
  S = rng.randrange(3, 7)
  Y = rng.choice([2, 2, 3])
  k = rng.randrange(1, S)          # states k.. form the final loop
  tt = tms.random_tm(rng, S, Y, 0.0, 0.0)
  for q in range(k, S):
    for s in range(Y):
      tt[q][s] = [rng.randrange(Y), rng.randrange(2), rng.randrange(k, S)]
  return tt

"""Work queues (P15): the protocol model-checked by TLC, its behaviours replayed into the real
code, and the histories of the real code judged against QueueHistory.tla."""
import vlib

BASE = {"WORKERS": 2, "JOBS": 5, "INITIAL": 2, "SHAPE": 1, "MAXLOCAL": 1, "TARGET": 1, "MINBATCH": 1,
        "ORDER": "waits-first", "SYNC": 0, "TRACE": 0}


def spec_runs(ctx):
  jobs = []
  for sync in (0, 1):
    for shape in (0, 1, 2):
      jobs.append(dict(BASE, SYNC=sync, SHAPE=shape, JOBS=6))
    jobs.append(dict(BASE, SYNC=sync, WORKERS=3, JOBS=ctx.size(5, 7), INITIAL=2, SHAPE=2))
    jobs.append(dict(BASE, SYNC=sync, WORKERS=2, JOBS=ctx.size(7, 9), INITIAL=3, SHAPE=1, MAXLOCAL=2))
  if ctx.thorough:
    jobs += [dict(BASE, WORKERS=3, JOBS=9, INITIAL=3, SHAPE=s, MAXLOCAL=2) for s in (0, 1, 2)]
    jobs += [dict(BASE, WORKERS=4, JOBS=6, INITIAL=2, SHAPE=1)]
  for env in jobs:
    r = vlib.tlc("WorkQueue", env=env, timeout=1500)
    ctx.add_tlc(r)
    ctx.count("spec_protocol_states", r.distinct)
  # the model can tell: looking at pushed jobs before looking at who waits loses jobs
  r = vlib.tlc("WorkQueue", env=dict(BASE, ORDER="pushes-first"), cfg="WorkQueueSafe.cfg", allow_violation=True)
  if not r.violation:
    raise vlib.MachineryError("the broken protocol was not rejected")


def spec_traces(ctx, n):
  """Behaviours of the model: (environment, schedule)."""
  out = []
  rng = ctx.rng
  for j in range(n):
    env = dict(BASE, TRACE=1, WORKERS=rng.choice([1, 2, 2, 3]), JOBS=rng.choice([4, 6, 9]), INITIAL=rng.choice([1, 2, 3]),
               SHAPE=rng.randrange(1, 3), MAXLOCAL=rng.choice([1, 2]), SYNC=rng.randrange(2), MINBATCH=rng.choice([1, 2]))
    env["TARGET"] = rng.choice([1, env["MAXLOCAL"]])
    r = vlib.tlc("WorkQueue", env=env, cfg="WorkQueueTrace.cfg", simulate="num=%d" % ctx.size(60, 400), workers=1,
                 extra=["-depth", "600", "-seed", str(rng.getrandbits(30))], timeout=300)
    seen = set()
    for line in r.lines:
      if line.startswith("T|") and line not in seen:
        seen.add(line)
        if len(seen) <= ctx.size(60, 400):
          out.append((env, [int(x) for x in line[2:].split(",") if x]))
  return out


def parent(env, j):
  ni = env["INITIAL"]
  return j - 1 if env["SHAPE"] == 0 else (j - ni - 1) % ni + 1 if env["SHAPE"] == 1 else j // 2


def params(rng, small):
  if not small:
    return {}
  a = rng.choice([1, 2, 3])
  t = rng.choice([1, 2, 4])
  return {"MIN_NUM_JOBS_PER_BATCH": a, "MAX_NUM_JOBS_PER_BATCH": rng.choice([2, 3, 4, 8]),
          "DEFAULT_TARGET_LOCAL_JOBS": t, "DEFAULT_MAX_LOCAL_JOBS": t + rng.choice([0, 1, 2])}


DEFAULTS = None


def job_tree(rng, total):
  """Initial jobs and who creates which."""
  ni = rng.choice([0, 1, 2, 5, total]) if total else 0
  ni = min(ni, total)
  kids, early = {}, {}
  if total > 50 and rng.random() < .6:
    # a few jobs creating many (as machines with many possible next transitions do)
    ni, j = rng.choice([1, 1, 3]), 0
    nxt = ni + 1
    while nxt <= total:
      j += 1 if rng.random() < .5 or j == 0 else 2
      j = min(j, nxt - 1)
      n = min(rng.choice([4, 12, 31, 32, 40, 70]), total + 1 - nxt)
      kids.setdefault(str(j), []).extend(range(nxt, nxt + n))
      nxt += n
    return list(range(1, ni + 1)), kids, early
  for j in range(ni + 1, total + 1):
    if j == 1:
      early.setdefault("1", []).append(j)
    else:
      x = rng.random()
      p = j - 1 if x < .2 else rng.randrange(max(1, j - 4), j) if x < .7 else rng.randrange(1, j)
      kids.setdefault(str(p), []).append(j)
  return list(range(1, ni + 1)), kids, early


def tasks_for(ctx):
  rng = ctx.rng
  tasks = []
  for env, script in spec_traces(ctx, ctx.size(10, 40)):
    kids = {}
    for j in range(env["INITIAL"] + 1, env["JOBS"] + 1):
      kids.setdefault(str(parent(env, j)), []).append(j)
    tasks.append({"workers": env["WORKERS"], "initial": list(range(1, env["INITIAL"] + 1)), "kids": kids, "early": {}, "single": False,
                  "params": {"MIN_NUM_JOBS_PER_BATCH": env["MINBATCH"], "MAX_NUM_JOBS_PER_BATCH": 25,
                             "DEFAULT_TARGET_LOCAL_JOBS": env["TARGET"], "DEFAULT_MAX_LOCAL_JOBS": env["MAXLOCAL"]},
                  "sync": bool(env["SYNC"]), "sched": "script", "script": script, "seed": rng.getrandbits(30), "tick": rng.choice([0, 0, .05])})
    ctx.count("model_behaviours_replayed")
  for j in range(ctx.size(6000, 40000)):
    big = rng.random() < .12
    total = rng.choice([60, 120, 250, 400]) if big else rng.choice([0, 1, 2, 3, 5, 8, 12, 20, 40])
    initial, kids, early = job_tree(rng, total)
    workers = rng.choice([1, 2, 2, 3, 4, 6])
    p = params(rng, not big or rng.random() < .3) or {"MIN_NUM_JOBS_PER_BATCH": 10, "MAX_NUM_JOBS_PER_BATCH": 25,
                                                     "DEFAULT_TARGET_LOCAL_JOBS": 25, "DEFAULT_MAX_LOCAL_JOBS": 30}
    tasks.append({"workers": workers, "initial": initial, "kids": kids, "early": early, "single": rng.random() < .3, "params": p,
                  "sync": rng.random() < .3, "sched": rng.choice(["random", "random", "prio"]), "seed": rng.getrandbits(30),
                  "tick": rng.choice([0, .01, .2]), "lag": rng.choice([.05, .3, .5, .9]), "slow": rng.choice([-1, -1, 0, 1, 2]),
                  "nothing": rng.choice([0, 0, .3, 1])})
  return tasks


def p15(ctx):
  rng = ctx.rng
  spec_runs(ctx)
  tasks = tasks_for(ctx)
  recs = vlib.record("drv_queue", "mpi", tasks, timeout=60)
  cases, info = [], {}
  for t, (st, r) in zip(tasks, recs):
    brief = {k: v for k, v in t.items() if k not in ("script", "kids")}
    if st != "ok":
      ctx.violation("mpi:%s" % st, "distributed queue with %s: %s" % (brief, (r or "no end")[-800:]), t)
      continue
    ctx.count("schedules")
    if r["end"] == "deadlock":
      ctx.violation("mpi:deadlock:%d" % t["workers"], "distributed queue: all processes wait for ever, %s" % brief, t)
    elif r["end"] == "long":
      ctx.violation("mpi:long:%d" % t["workers"], "distributed queue: no end after %d steps, %s" % (r["steps"], brief), t)
    elif r["end"] == "error":
      err = list(r["errors"].values())[0]
      ctx.violation("mpi:error:%s" % err.strip().splitlines()[-1], "distributed queue: %s with %s" % (err[-500:], brief), t)
    info[len(cases)] = (brief, t)
    if r["end"] in ("ok",):
      cases.append({"id": len(cases), "kind": "mpi", "workers": t["workers"], "ev": r["events"]})
  for _ in range(ctx.size(400, 4000)):
    cls, kind = rng.choice([("Basic_LIFO_Work_Queue", "lifo"), ("Basic_FIFO_Work_Queue", "fifo")])
    ops, n = [], 0
    for _ in range(rng.choice([3, 10, 40])):
      x = rng.random()
      if x < .3:
        ops.append(["push", n])
        n += 1
      elif x < .5:
        m = rng.choice([0, 1, 2, 5])
        ops.append(["many", list(range(n, n + m))])
        n += m
      else:
        ops.append(["pop"])
    info.setdefault("ops", []).append((cls, kind, ops))
  loc = info.pop("ops")
  res = vlib.record("drv_queue", "local", [{"cls": c, "ops": o} for c, _, o in loc], timeout=30)
  for (c, kind, o), (st, r) in zip(loc, res):
    if st != "ok":
      ctx.violation("%s:%s" % (c, st), "%s: %s %s" % (c, (r or "no end")[-400:], o), o)
      continue
    if any(e[0] == "pop" and not isinstance(e[2], int) for e in r):
      ctx.violation("%s:alias" % c, "%s hands out what was never pushed: %s" % (c, o), o)
      continue
    info[len(cases)] = ((c, o), o)
    cases.append({"id": len(cases), "kind": kind, "workers": 0, "ev": r})
    ctx.count("local_histories")
  can = canaries(rng, cases)
  verdicts, _ = vlib.judge("QueueHistory", cases + can, ctx)
  ctx.traces -= len(can)
  for c in cases:
    v = verdicts[c["id"]][0]
    if v != "ok":
      ctx.violation("%s:%s" % (c["kind"], v), "%s: %s, %s" % (c["kind"], v, info[c["id"]][0]), info[c["id"]][1])
  for c in can:
    if verdicts[c["id"]][0] == "ok" and not ctx.violations:
      raise vlib.MachineryError("canary accepted: %s" % c)
  ctx.count("canaries_rejected", len(can))
  for c in cases[:3]:
    ctx.sample({"schedule": info[c["id"]][0], "events": len(c["ev"])})


def canaries(rng, cases):
  out = []
  src = [c for c in cases if c["kind"] == "mpi" and sum(e[0] == "pop" for e in c["ev"]) > 2]
  for c in rng.sample(src, min(6, len(src))):
    ev = [list(e) for e in c["ev"]]
    pops = [j for j, e in enumerate(ev) if e[0] == "pop"]
    x = len(out) % 3
    if x == 0:
      ev[pops[-1]][2] = ev[pops[0]][2]       # handed out twice
    elif x == 1:
      del ev[pops[-1]]                        # lost
    else:
      ev.insert(pops[-1], ["none", 1, 0])
    out.append(dict(c, id=10**7 + len(out), ev=ev))
  return out

"""Runs the real work queues under controlled schedules and records what they hand out."""
import random
import sys
import time

import fakempi
fakempi.install()
_real_time = time.time
time.time = lambda: fakempi.world.clock if fakempi.world else _real_time()

import MPI_Work_Queue
import Work_Queue


class Null:
  def write(self, x):
    pass

  def flush(self):
    pass


def chooser(task, world_ref):
  rng = random.Random(task["seed"])
  kind = task["sched"]
  script = list(task.get("script", []))[::-1]
  prio = {}
  lag = task.get("lag", .5)
  slow = task.get("slow", -1)

  def choose(acts):
    w = world_ref[0]
    if rng.random() < task["tick"]:
      w.clock += rng.choice([1, 11, 130])
    if kind == "script":
      while script:
        a = script.pop()
        for x in acts:
          if a == 0 and x == ("run", 0) or 0 < a < 100 and x == ("run", a) or a > 100 and x[0] == "deliver" and x[1][0] == a - 100:
            return x
        # not possible here: skip that entry of the script
    if kind == "prio":
      # priorities with a few random changes (rare interleavings)
      for x in acts:
        key = (x[0], x[1])
        if key not in prio:
          prio[key] = rng.random()
      if rng.random() < .05:
        prio[rng.choice(list(prio))] = rng.random()
      return max(acts, key=lambda x: prio[(x[0], x[1])])
    d = [x for x in acts if x[0] == "deliver"]
    r = [x for x in acts if x[0] == "run"]
    r2 = [x for x in r if x[1] != slow] or r
    if r and d:
      return rng.choice(d) if rng.random() < lag else rng.choice(r2)
    return rng.choice(d or r2)
  return choose


def mpi(task):
  """task: {workers, initial, kids: {job: [jobs]}, single, early, params, sync, sched, seed, tick, script}."""
  for k, v in task["params"].items():
    setattr(MPI_Work_Queue, k, v)
  n = task["workers"] + 1
  ref = [None]
  w = fakempi.World(n, chooser(task, ref), sync=task["sync"])
  ref[0] = w
  fakempi.world = w
  MPI_Work_Queue.num_proc = n
  MPI_Work_Queue.rank = 0
  kids = {int(k): v for k, v in task["kids"].items()}
  ev = w.events

  def master():
    m = MPI_Work_Queue.Master(pout=Null())
    for j in task["initial"]:
      ev.append(["push", 0, j])
      m.push_job(j)
    m.run_master()
    ev.append(["end", 0, 0])

  def worker(r):
    def body():
      rng = random.Random(task["seed"] * 31 + r)
      q = MPI_Work_Queue.MPI_Worker_Work_Queue(master_proc_num=0, pout=Null())
      first = task["early"].get(str(r))
      if first:
        for j in first:
          ev.append(["push", r, j])
        q.push_jobs(list(first))
      while True:
        ev.append(["ask", r, 0])
        j = q.pop_job()
        if j is None:
          ev.append(["none", r, 0])
          return
        ev.append(["pop", r, j])
        if rng.random() < .5:
          w.pause()   # working
        ks = kids.get(j, [])
        if task["single"]:
          for k in ks:
            ev.append(["push", r, k])
            q.push_job(k)
        elif ks or rng.random() < task.get("nothing", 0):
          for k in ks:
            ev.append(["push", r, k])
          q.push_jobs(list(ks))
    return body

  try:
    w.start(0, master)
    for r in range(1, n):
      w.start(r, worker(r))
    res = w.run()
  finally:
    fakempi.world = None
  return {"end": res, "errors": {str(k): v for k, v in w.errors.items()}, "events": ev, "steps": w.steps}


def local(task):
  """task: {cls, ops: [["push", job] / ["many", [jobs]] / ["pop"]]} -> events."""
  q = getattr(Work_Queue, task["cls"])()
  ev = []
  for op in task["ops"]:
    if op[0] == "push":
      q.push_job(op[1])
      ev.append(["push", 0, op[1]])
    elif op[0] == "many":
      jobs = list(op[1])
      q.push_jobs(jobs)
      if jobs != op[1]:
        raise AssertionError("push_jobs changed its argument")
      jobs.append("later")     # the queue must not share the caller's list
      for j in op[1]:
        ev.append(["push", 0, j])
    else:
      j = q.pop_job()
      ev.append(["pop", 0, j] if j is not None else ["none", 0, 0])
  return ev

"""A stand-in for mpi4py: every "process" is a thread, only one runs at a time, and a schedule
decides at every communication call which process goes on and which message arrives next.
Messages from one process to another arrive in the order sent."""
import random
import sys
import threading
import types

ANY = -1


class Deadlock(Exception):
  pass


class Stopped(BaseException):
  pass


class World:
  def __init__(self, nproc, choose, sync=False, max_steps=200000):
    self.n = nproc
    self.choose = choose          # (list of enabled actions) -> action
    self.sync = sync
    self.transit = {}             # (src, dst) -> [(tag, obj, id)]
    self.arrived = {d: [] for d in range(nproc)}   # dst -> [(src, tag, obj, id)]
    self.taken = set()
    self.cond = {}                # rank -> predicate to continue (None: can continue)
    self.sems = {r: threading.Semaphore(0) for r in range(nproc)}
    self.main = threading.Semaphore(0)
    self.alive = set()
    self.errors = {}
    self.steps = 0
    self.max_steps = max_steps
    self.clock = 1000.0
    self.next_id = 0
    self.stop = False
    self.local = threading.local()
    self.events = []

  # ---- called by the processes
  def me(self):
    return self.local.rank

  def pause(self, cond=None):
    """Give the turn back; continue when scheduled (and cond holds)."""
    r = self.me()
    self.cond[r] = cond
    self.main.release()
    self.sems[r].acquire()
    if self.stop:
      raise Stopped()

  def post(self, obj, dst, tag):
    import pickle
    self.next_id += 1
    self.transit.setdefault((self.me(), dst), []).append((tag, pickle.dumps(obj), self.next_id))
    return self.next_id

  def find(self, dst, source, tag):
    for j, (s, t, o, i) in enumerate(self.arrived[dst]):
      if source in (ANY, s) and tag in (ANY, t):
        return j
    return None

  # ---- scheduler
  def start(self, rank, func):
    def body():
      self.local.rank = rank
      self.sems[rank].acquire()
      try:
        if not self.stop:
          func()
      except Stopped:
        pass
      except BaseException as e:
        import traceback
        self.errors[rank] = traceback.format_exc()[-1500:]
      self.alive.discard(rank)
      self.main.release()
    self.alive.add(rank)
    self.cond[rank] = None
    t = threading.Thread(target=body, daemon=True)
    t.start()
    return t

  def run(self):
    """Runs until all processes ended; returns "ok", "deadlock", "error" or "long"."""
    result = "ok"
    while self.alive:
      acts = [("deliver", k) for k, v in sorted(self.transit.items()) if v]
      acts += [("run", r) for r in sorted(self.alive) if self.cond[r] is None or self.cond[r]()]
      if not acts:
        result = "deadlock"
        break
      if not any(a[0] == "run" for a in acts) and not any(True for _ in acts):
        result = "deadlock"
        break
      self.steps += 1
      if self.steps > self.max_steps:
        result = "long"
        break
      kind, x = self.choose(acts)
      if kind == "deliver":
        tag, obj, i = self.transit[x].pop(0)
        self.arrived[x[1]].append((x[0], tag, obj, i))
      else:
        self.sems[x].release()
        self.main.acquire()
        if self.errors:
          result = "error"
          break
    self.stop = True
    for r in list(self.alive):
      self.sems[r].release()
    return result


world = None


class Status:
  def __init__(self):
    self.source = self.tag = None

  def Get_source(self):
    return self.source

  def Get_tag(self):
    return self.tag


class Request:
  def __init__(self, w, i, key):
    self.w, self.i, self.key = w, i, key

  def Cancel(self):
    # A message that has not been taken may be withdrawn.
    q = self.w.transit.get(self.key, [])
    q[:] = [m for m in q if m[2] != self.i]
    a = self.w.arrived[self.key[1]]
    a[:] = [m for m in a if m[3] != self.i]
    self.w.taken.add(self.i)

  cancel = Cancel

  def Wait(self, status=None):
    i = self.i
    if self.w.sync and i not in self.w.taken:
      self.w.pause(lambda: i in self.w.taken)

  wait = Wait

  def Test(self, status=None):
    return not self.w.sync or self.i in self.w.taken

  def test(self, status=None):
    return (self.Test(), None)


class Comm:
  def Get_rank(self):
    return getattr(world.local, "rank", 0) if world else 0

  def Get_size(self):
    return world.n if world else 1

  rank = property(Get_rank)
  size = property(Get_size)

  def send(self, obj, dest, tag=0):
    world.pause()
    i = world.post(obj, dest, tag)
    if world.sync:
      world.pause(lambda: i in world.taken)

  def ssend(self, obj, dest, tag=0):
    world.pause()
    i = world.post(obj, dest, tag)
    world.pause(lambda: i in world.taken)

  def bsend(self, obj, dest, tag=0):
    world.pause()
    world.post(obj, dest, tag)

  def isend(self, obj, dest, tag=0):
    world.pause()
    key = (world.me(), dest)
    return Request(world, world.post(obj, dest, tag), key)

  def recv(self, buf=None, source=ANY, tag=ANY, status=None):
    import pickle
    me = world.me()
    world.pause(lambda: world.find(me, source, tag) is not None)
    j = world.find(me, source, tag)
    s, t, o, i = world.arrived[me].pop(j)
    world.taken.add(i)
    if status is not None:
      status.source, status.tag = s, t
    return pickle.loads(o)

  def Probe(self, source=ANY, tag=ANY, status=None):
    me = world.me()
    world.pause(lambda: world.find(me, source, tag) is not None)
    j = world.find(me, source, tag)
    if status is not None:
      status.source, status.tag = world.arrived[me][j][:2]
    return True

  def Iprobe(self, source=ANY, tag=ANY, status=None):
    me = world.me()
    world.pause()
    j = world.find(me, source, tag)
    if j is not None and status is not None:
      status.source, status.tag = world.arrived[me][j][:2]
    return j is not None

  probe = Probe
  iprobe = Iprobe


def install():
  m = types.ModuleType("mpi4py")
  M = types.ModuleType("mpi4py.MPI")
  M.COMM_WORLD = Comm()
  M.ANY_SOURCE = ANY
  M.ANY_TAG = ANY
  M.Status = Status
  M.Request = Request
  m.MPI = M
  sys.modules["mpi4py"] = m
  sys.modules["mpi4py.MPI"] = M

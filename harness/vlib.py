"""Shared machinery of the checks: scratch space, TLC runs, recording the real
code in watched worker processes, known findings, evidence and exit codes."""

import hashlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CODE = os.path.join(REPO, "Code")
SPEC = os.path.join(VERIF, "spec")
PY = "/opt/venv/bin/python"
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4

_scratch = None


def scratch():
  global _scratch
  if _scratch is None:
    _scratch = tempfile.mkdtemp(prefix="verif-")
  return _scratch


def cleanup():
  global _scratch
  if _scratch and os.path.isdir(_scratch):
    shutil.rmtree(_scratch, ignore_errors=True)
  _scratch = None


def repo_env(extra=None):
  env = dict(os.environ)
  env.update(PYTHONPATH=CODE, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
             LANG="C.UTF-8")
  if extra:
    env.update(extra)
  return env


class MachineryError(Exception):
  pass


# --------------------------------------------------------------------------
# TLC

class TLCResult:
  def __init__(self):
    self.lines = []       # strings printed by PrintT
    self.generated = 0
    self.distinct = 0
    self.depth = 0
    self.ok = False       # finished without error
    self.violation = None # name of violated invariant / property
    self.out = ""
    self.wall = 0.0


def tlc(module, env=None, cfg=None, workers=CORES, timeout=800, heap="12g",
        extra=(), allow_violation=False, simulate=None):
  """Run TLC on spec/<module>.tla. Returns TLCResult; raises MachineryError on
  anything other than completion (or a property violation if allowed)."""
  meta = tempfile.mkdtemp(prefix="tlc-", dir=scratch())
  cfg = cfg or (module + ".cfg")
  e = dict(os.environ)
  e.update({k: str(v) for k, v in (env or {}).items()})
  cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC",
         "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet",
         "-XX:MaxDirectMemorySize=4g",
         "-cp", TLA_CP, "tlc2.TLC", "-config", cfg, "-workers", str(workers),
         "-metadir", meta, "-noGenerateSpecTE"]
  if simulate:
    cmd += ["-simulate", simulate]
  cmd += list(extra) + [module + ".tla"]
  t0 = time.time()
  outfile = os.path.join(meta, "out.txt")
  with open(outfile, "wb") as f:
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT)
    try:
      p.wait(timeout=timeout)
      timed_out = False
    except subprocess.TimeoutExpired:
      p.kill(); p.wait()
      timed_out = True
  with open(outfile, errors="replace") as f:
    out = f.read()
  shutil.rmtree(meta, ignore_errors=True)
  r = TLCResult()
  r.wall = time.time() - t0
  r.out = out
  r.rc = p.returncode
  r.timed_out = timed_out
  for line in out.splitlines():
    if len(line) > 1 and line[0] == '"' and line[-1] == '"':
      r.lines.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
  m = None
  for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
    pass
  if m:
    r.generated = int(m.group(1).replace(",", ""))
    r.distinct = int(m.group(2).replace(",", ""))
  m = re.search(r"depth of the complete state graph search is (\d+)", out)
  if m:
    r.depth = int(m.group(1))
  if "Model checking completed. No error has been found." in out or (
      simulate and p.returncode == 0):
    r.ok = True
  else:
    m = re.search(r"(?:Invariant|Action property|Temporal properties|Property) ?(\S*) ?(?:is|were) violated", out)
    if m:
      r.violation = m.group(1) or "temporal"
    elif "is violated" in out or "were violated" in out:
      r.violation = "property"
    elif "Deadlock reached" in out:
      r.violation = "deadlock"
    elif "Evaluating assumption" in out or re.search(r"Assumption .* is false", out):
      r.violation = "assumption"
    if not (r.violation and allow_violation):
      tail = "\n".join(out.splitlines()[-60:])
      raise MachineryError("TLC %s %s (rc=%s, timed_out=%s):\n%s" % (
        module, "violation" if r.violation else "failure", p.returncode, timed_out, tail))
  return r


def judge(module, cases, ctx=None, key="CASES", env=None, **kw):
  """Have TLC judge recorded cases: every case must get exactly one verdict.
  Returns ({id: (verdict, details)}, TLCResult).  `cases` is a list of dicts
  with integer field id."""
  if module == "RunClaims":
    for c in cases:
      c.setdefault("init", [])
  path = os.path.join(scratch(), "cases-%s-%d.json" % (module, random.getrandbits(40)))
  with open(path, "w") as f:
    json.dump(cases, f, separators=(",", ":"))
  e = {key: path}
  e.update(env or {})
  r = tlc(module, env=e, **kw)
  os.remove(path)
  verdicts = {}
  for line in r.lines:
    if line.startswith("V|"):
      parts = line.split("|")
      verdicts[int(parts[1])] = (parts[2], parts[3:])
  missing = [c["id"] for c in cases if c["id"] not in verdicts]
  if missing:
    raise MachineryError("TLC %s gave no verdict for cases %s...\n%s" % (
      module, missing[:5], r.out[-3000:]))
  if ctx is not None:
    ctx.add_tlc(r, len(cases))
  return verdicts, r


# --------------------------------------------------------------------------
# Recording the real code in watched worker processes.

def _worker(conn, modname, funcname, init_args):
  sys.path.insert(0, os.path.join(VERIF, "harness"))
  sys.path.insert(0, CODE)
  sys.dont_write_bytecode = True
  os.chdir(scratch_for_worker(init_args))
  devnull = os.open(os.devnull, os.O_RDWR)
  os.dup2(devnull, 0)
  if not os.environ.get("VERIF_DEBUG"):
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
  try:
    mod = __import__(modname)
    func = getattr(mod, funcname)
  except BaseException:
    conn.send(("import", traceback.format_exc()))
    return
  conn.send(("ready", None))
  while True:
    try:
      msg = conn.recv()
    except EOFError:
      return
    if msg is None:
      return
    idx, task = msg
    try:
      res = func(task)
      conn.send(("done", (idx, res)))
    except MemoryError:
      conn.send(("exc", (idx, "MemoryError")))
    except BaseException as e:
      conn.send(("exc", (idx, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:]))))


def scratch_for_worker(base):
  d = tempfile.mkdtemp(prefix="w-", dir=base)
  return d


def record(modname, funcname, tasks, timeout=120, procs=None, deadline=None):
  """Run modname.funcname(task) for each task in worker processes (which import
  the code under test).  Returns a list of ("ok", result) / ("exc", text) /
  ("hang", None) / ("skip", None) in task order."""
  procs = min(procs or CORES, max(1, len(tasks)))
  ctxm = mp.get_context("fork")
  results = [None] * len(tasks)
  pending = list(range(len(tasks)))[::-1]
  workers = {}
  base = scratch()

  def spawn():
    parent, child = ctxm.Pipe()
    p = ctxm.Process(target=_worker, args=(child, modname, funcname, base), daemon=True)
    p.start()
    child.close()
    workers[parent] = [p, None, time.time(), False]

  for _ in range(procs):
    spawn()
  ndone = 0
  import_err = None
  while ndone < len(tasks):
    if deadline and time.time() > deadline:
      for idx in pending:
        results[idx] = ("skip", None)
      for conn, w in workers.items():
        if w[1] is not None:
          results[w[1]] = ("skip", None)
      break
    ready = multiprocessing.connection.wait(list(workers), timeout=0.5)
    for conn in ready:
      w = workers[conn]
      try:
        kind, payload = conn.recv()
      except (EOFError, ConnectionResetError):
        # The worker died (killed, segfault, os._exit).
        w[0].join()
        if w[1] is not None:
          results[w[1]] = ("exc", "worker process died with exit code %s" % w[0].exitcode)
          ndone += 1
        del workers[conn]
        conn.close()
        if ndone < len(tasks):
          spawn()
        continue
      if kind == "import":
        import_err = payload
        break
      if kind != "ready":
        idx = payload[0]
        results[idx] = ("ok" if kind == "done" else "exc", payload[1])
        ndone += 1
      w[1] = None
      if pending:
        idx = pending.pop()
        w[1] = idx
        w[2] = time.time()
        conn.send((idx, tasks[idx]))
      else:
        try:
          conn.send(None)
        except (BrokenPipeError, OSError):
          pass
        w[3] = True
    if import_err:
      break
    now = time.time()
    for conn, w in list(workers.items()):
      if w[1] is not None and now - w[2] > timeout:
        w[0].kill()
        w[0].join()
        results[w[1]] = ("hang", None)
        ndone += 1
        del workers[conn]
        conn.close()
        if ndone < len(tasks):
          spawn()
      elif w[1] is None and w[3] and not w[0].is_alive():
        del workers[conn]
        conn.close()
  for conn, w in list(workers.items()):
    w[0].kill()
    w[0].join()
    conn.close()
  if import_err:
    # The code under test (or our driver) does not even import.
    return [("exc", "import: " + import_err)] * len(tasks)
  return results


# --------------------------------------------------------------------------
# C++ build of the current tree.

_cpp = None


def cpp_build():
  """Build /repo/cpp's working tree in scratch; returns the build directory."""
  global _cpp
  if _cpp is None:
    b = os.path.join(scratch(), "cppbuild")
    e = dict(os.environ)
    e["CCACHE_DISABLE"] = "1"
    r = subprocess.run(["cmake", "-S", os.path.join(REPO, "cpp"), "-B", b, "-G", "Ninja"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    if r.returncode == 0:
      r = subprocess.run(["ninja", "-C", b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
    if r.returncode != 0:
      raise MachineryError("C++ build failed:\n" + r.stdout.decode(errors="replace")[-3000:])
    _cpp = b
  return _cpp


def run_cmd(cmd, timeout=120, cwd=None, env=None, inp=None):
  """Returns (rc, stdout, stderr); rc is None on timeout."""
  try:
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                       cwd=cwd or scratch(), env=env, input=inp, stdin=subprocess.DEVNULL if inp is None else None)
    return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
  except subprocess.TimeoutExpired:
    return None, "", "timeout"


# --------------------------------------------------------------------------
# One check run.

class Ctx:
  def __init__(self, prop, tier, seed, level="model_checking"):
    self.prop = prop
    self.tier = tier
    self.seed = seed
    self.level = level
    self.rng = random.Random("%s-%s" % (prop, seed))
    self.violations = []     # (key, text, replay data)
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.samples = []
    self.extra = {}
    self.t0 = time.time()
    self.known = load_known(prop)
    self.hit_known = {}

  @property
  def thorough(self):
    return self.tier == "thorough"

  def size(self, quick, thorough):
    return thorough if self.thorough else quick

  def add_tlc(self, r, ntraces=0):
    self.states += r.distinct
    self.transitions += r.generated
    self.traces += ntraces

  def sample(self, x):
    if len(self.samples) < 12:
      self.samples.append(x)

  def count(self, name, n=1):
    self.extra[name] = self.extra.get(name, 0) + n

  def violation(self, key, text, data=None):
    """key identifies the failing input / call site / history (stable across runs)."""
    for kf in self.known:
      if kf["key"] == key:
        self.hit_known[key] = kf
        return
    self.violations.append((key, text, data))

  def finish(self):
    wall = time.time() - self.t0
    cov = {"states": self.states, "transitions": self.transitions,
           "traces_validated_against_impl": self.traces,
           "samples": self.samples or ["none"]}
    cov.update(self.extra)
    ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
          "coverage": cov, "wall_s": round(wall, 2), "violations": len(self.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
      json.dump(ev, f, indent=1)
    for kf in self.hit_known.values():
      print("KNOWN-FINDING: property=%s %s" % (self.prop, kf["what"]))
    if self.violations:
      d = os.path.join(VERIF, "evidence", "replay")
      os.makedirs(d, exist_ok=True)
      path = os.path.join(d, "%s-%s.json" % (self.prop, self.tier))
      with open(path, "w") as f:
        json.dump([{"key": k, "what": t, "data": x} for k, t, x in self.violations[:50]],
                  f, indent=1, default=str)
      for k, t, x in self.violations[:10]:
        print("  violation: [%s] %s" % (k, t))
      print("VIOLATION property=%s replay=%s" % (self.prop, path))
      return 1
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs %s" % (
      self.prop, self.tier, self.states, self.transitions, self.traces, wall,
      json.dumps(self.extra)))
    return 0


def load_known(prop):
  path = os.path.join(VERIF, "known_findings.jsonl")
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line and not line.startswith("#") and line.startswith("{"):
        d = json.loads(line)
        if d["property"] == prop and d.get("status") == "known":
          out.append(d)
  return out


def short_hash(x):
  return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:10]

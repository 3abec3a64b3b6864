"""P25: filtering campaigns account for every machine."""
import os
import shutil
from concurrent.futures import ThreadPoolExecutor

import drv_names
import tms
import vlib

CLASSES = ["unknown", "halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite"]
HERE = os.path.dirname(os.path.abspath(__file__))

# The scripts under test remove directories: whatever they name, only what lies in the
# campaign's scratch directory is removed.
RM = """#!/bin/bash
for a in "$@"; do
  case "$a" in
    -*) ;;
    *) p=$(realpath -m -- "$a")
       case "$p/" in
         "$CAMPAIGN_DIR"/?*) /bin/rm -rf -- "$p" ;;
         *) echo "$p" >> "$CAMPAIGN_DIR/refused" ;;
       esac ;;
  esac
done
"""


def machines(rng, n):
  """Machines in tree normal form with exactly one cell at which they stop."""
  pool = tms.corpus("halt") + tms.corpus("run") + tms.corpus("quasi")
  out = []
  while len(out) < n:
    tt = [[list(c) for c in row] for row in (rng.choice(pool)[0] if rng.random() < .6
                                             else tms.tnf_random(rng, rng.randrange(2, 5), 2, 60))]
    q, s = len(tt), len(tt[0])
    if q > 7 or s > 7 or tt[0][0] != [1, 1, 1]:
      continue
    stop = [(i, j) for i in range(q) for j in range(s) if tt[i][j][0] < 0 or tt[i][j][2] < 0]
    if not stop:
      continue
    keep = rng.choice(stop)
    for i, j in stop:
      if (i, j) != keep:
        tt[i][j] = [rng.randrange(s), rng.randrange(2), rng.randrange(q)]
    i, j = keep
    tt[i][j] = [-1, 0, -1] if len(tt[i][j]) == 3 else tt[i][j]
    out.append(drv_names.name(tms.to_text(tt)))
  out += rng.sample(out, min(len(out), rng.randrange(0, 3)))
  return out


def some_filter(rng):
  x = rng.random()
  if x < .45:
    return [os.path.join(HERE, "campaign_filter.py"), "--salt=%d" % rng.randrange(10**6)]
  return rng.choice([
    ["Code/Reverse_Engineer_Filter.py"],
    ["Code/CTL_Filter.py", "--type=" + rng.choice(["CTL1", "CTL2", "CTL3", "CTL4"]), "--max-block-size=2", "--cutoff=%d" % rng.choice([10, 40])],
    ["Code/CPS_Filter.py", "--max-block-size=2", "--max-steps=2000"],
    ["Code/Backtracking_Filter.py", "--steps=%d" % rng.choice([3, 20])],
    ["Code/Enumerate.py", "--block-size=%d" % rng.choice([1, 2]), "--max-loops=%d" % rng.choice([5, 60]), "--lin-steps=0", "--no-ctl", "--no-reverse-engineer"],
    ["Code/Enumerate.py", "--max-loops=%d" % rng.choice([20, 200]), "--lin-steps=%d" % rng.choice([20, 200])],
  ])


def names_of(path):
  try:
    with open(path) as f:
      return [drv_names.name(l.split()[0]) for l in f if l.strip()]
  except (OSError, UnicodeDecodeError):
    return ["?"]


class Campaign:
  def __init__(self, d, seed_tms, rng):
    self.d, self.rng, self.events = d, rng, []
    self.all = seed_tms
    self.reads = []      # (event, {field: path}) to be read later: files are kept
    self.nread = 0
    e = vlib.repo_env()
    e["PATH"] = os.path.join(d, "bin") + ":/opt/venv/bin:" + os.environ["PATH"]
    e["CAMPAIGN_DIR"] = d
    e["USER"] = os.path.relpath(os.path.join(d, "user"), "/tmp")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    self.env = e
    os.makedirs(os.path.join(d, "bin"))
    os.makedirs(os.path.join(d, "root"))
    with open(os.path.join(d, "bin", "rm"), "w") as f:
      f.write(RM)
    os.chmod(os.path.join(d, "bin", "rm"), 0o755)

  def run(self, script, *args, **env):
    rc, so, se = vlib.run_cmd(["bash", os.path.join(vlib.REPO, "Tools", script)] + [str(a) for a in args],
                              timeout=200, cwd=vlib.REPO, env=dict(self.env, **env))
    self.log = (so + se)[-1500:]
    return rc if rc is not None else 99

  def keep(self, path):
    """A copy as it is now (later rounds overwrite it)."""
    self.nread += 1
    to = os.path.join(self.d, "seen%d.pb" % self.nread)
    if os.path.exists(path):
      shutil.copy(path, to)
    return to

  def files(self, d):
    return {cl: self.keep(os.path.join(d, cl + ".pb")) for cl in CLASSES}

  def script(self, cmd):
    return [os.path.join(vlib.REPO, cmd[0])] + cmd[1:] if cmd[0].startswith("Code") else ["/opt/venv/bin/python"] + cmd

  def whole(self, sub):
    rng, root = self.rng, os.path.join(self.d, "root")
    cmd = some_filter(rng)
    fail = rng.random() < .2
    if fail:
      cmd = [os.path.join(HERE, "campaign_filter.py"), "--fail"]
    before = names_of(os.path.join(root, "unknown.txt"))
    rc = self.run("filter.sh", root, sub, *self.script(cmd))
    w = os.path.join(root, sub)
    ev = {"k": "filter", "cmd": " ".join(cmd), "want": 0 if fail else 1, "rc": rc, "before": before,
          "text": names_of(os.path.join(root, "unknown.txt")), "log": self.log if rc else ""}
    self.events.append(ev)
    self.reads.append((ev, {"in": self.keep(os.path.join(w, "in.pb")), "out": self.keep(os.path.join(w, "out.pb")),
                            "hold": self.keep(os.path.join(root, "unknown.pb"))}, self.files(w)))

  def sharded(self, sub):
    rng, root = self.rng, os.path.join(self.d, "root")
    n = rng.choice([1, 2, 3, 4])
    w = os.path.join(root, sub)
    rc = self.run("sbatch_filter_setup.sh", root, sub, n)
    ind = os.path.join(w, "split", "in")
    parts = [names_of(os.path.join(ind, f)) for f in sorted(os.listdir(ind))] if os.path.isdir(ind) else []
    self.events.append({"k": "setup", "n": n, "rc": rc, "copy": names_of(os.path.join(w, "in.txt")), "parts": parts, "log": self.log if rc else ""})
    if rc or len(parts) != n:
      return
    todo = list(range(n)) + [rng.randrange(n) for _ in range(rng.choice([0, 0, 1]))]
    rng.shuffle(todo)
    cmd = some_filter(rng)
    ok = set()

    def shard(k, bad):
      c = cmd
      if bad:
        c = [os.path.join(HERE, "campaign_filter.py"), bad]
      off = rng.choice([0, 0, 1, k])
      rc = self.run("sbatch_filter_array.sh", os.path.join(w, "split"), off, *c, SLURM_ARRAY_TASK_ID=str(k - off))
      o = os.path.join(w, "split", "%08d" % k)
      mark = os.path.exists(os.path.join(o, "success"))
      ev = {"k": "shard", "shard": k + 1, "cmd": " ".join(c), "want": 0 if bad else 1, "rc": rc, "mark": int(mark),
            "text": names_of(os.path.join(o, "unknown.txt")), "log": self.log if rc else ""}
      self.events.append(ev)
      self.reads.append((ev, {"out": self.keep(os.path.join(o, "out.pb"))}, self.files(o)))
      (ok.discard if bad else ok.add)(k)

    def finish():
      before = names_of(os.path.join(root, "unknown.txt"))
      rc = self.run("sbatch_filter_finish.sh", root, sub, n)
      ev = {"k": "finish", "rc": rc, "hold": names_of(os.path.join(root, "unknown.txt")), "before": before, "log": self.log if rc else ""}
      self.events.append(ev)
      self.reads.append((ev, {}, self.files(w)))

    for k in todo:
      bad = ""
      if rng.random() < .25:
        bad = "--lose" if len(parts[k]) > 1 and rng.random() < .6 else "--fail"
      shard(k, bad)
      if len(ok) < n and rng.random() < .15:
        finish()
    for k in range(n):
      if k not in ok:
        if rng.random() < .5:
          finish()
        shard(k, "")
    finish()

  def venn(self):
    rng = self.rng
    l = [t for t in self.all if rng.random() < .7]
    r = [t for t in self.all if rng.random() < .7] + machines(rng, 1)
    p = {k: os.path.join(self.d, "venn." + k) for k in ("left", "right", "inter", "lonly", "ronly")}
    for k, x in (("left", l), ("right", r)):
      with open(p[k], "w") as f:
        f.writelines(t + "\n" for t in x)
    rc, so, se = vlib.run_cmd(["/opt/venv/bin/python", os.path.join(vlib.REPO, "Tools", "venn_diff.py")] + list(p.values()), timeout=60, env=self.env)
    self.events.append({"k": "venn", "rc": 99 if rc is None else rc, "left": l, "right": r, "log": se[-500:] if rc else "",
                        **{k: names_of(p[k]) for k in ("inter", "lonly", "ronly")}})


def p25(ctx):
  rng = ctx.rng
  r = vlib.tlc("FilterPipeline", cfg="FilterPipelineBig.cfg" if ctx.thorough else None)
  ctx.add_tlc(r)
  t = vlib.tlc("FilterPipeline", cfg="FilterPipelineCareless.cfg", allow_violation=True)
  if t.violation != "EverythingAccounted":
    raise vlib.MachineryError("finishing a round without all shards is not refuted: %s" % t.violation)
  base = os.path.realpath(vlib.scratch())
  n = ctx.size(26, 200)
  cams = []
  for j in range(n):
    import random
    c = Campaign(os.path.join(base, "camp%d" % j), machines(rng, rng.choice([1, 2, 3, 5, 8, 13, 30, 60])), random.Random(rng.random()))
    cams.append(c)
  st = vlib.record("drv_campaign", "write", [{"path": os.path.join(c.d, "root", "unknown.pb"), "tms": c.all} for c in cams])
  if any(s != "ok" for s, _ in st):
    raise vlib.MachineryError("cannot write the first holdouts: %s" % [x for x in st if x[0] != "ok"][:1])

  def go(c):
    with open(os.path.join(c.d, "root", "unknown.txt"), "w") as f:
      f.writelines(t + "\n" for t in c.all)
    k = 0
    for _ in range(c.rng.choice([0, 1, 2, 3])):
      c.whole("w%d" % k)
      k += 1
    c.venn()
    for _ in range(c.rng.choice([0, 1, 1, 2]) if k else 1):
      c.sharded("s%d" % k)
      k += 1
  with ThreadPoolExecutor(vlib.CORES) as ex:
    list(ex.map(go, cams))
  tasks, where = [], []
  for c in cams:
    for ev, fields, files in c.reads:
      for k, p in fields.items():
        tasks.append({"x": p})
        where.append((ev, k))
      tasks.append(files)
      where.append((ev, "files"))
  recs = vlib.record("drv_campaign", "read", tasks, timeout=60)
  for (ev, k), (s, x) in zip(where, recs):
    bad = [{"m": "?", "v": "unknown", "n": -1}]
    if k == "files":
      ev[k] = x if s == "ok" else {cl: bad for cl in CLASSES}
    else:
      y = x["x"] if s == "ok" else bad
      ev[k] = [z["m"] for z in y] if k in ("in", "hold") else y
  cases = [{"id": j, "all": c.all, "events": [{k: v for k, v in e.items() if k not in ("cmd", "log")} for e in c.events]} for j, c in enumerate(cams)]
  canaries = []
  import copy
  for c in cases:
    for j, e in enumerate(c["events"]):
      if len(canaries) < 12 and e["rc"] == 0 and e["k"] in ("filter", "shard", "finish", "setup") and rng.random() < .2:
        d = copy.deepcopy(c)
        x = d["events"][j]
        if e["k"] == "setup":
          x["parts"][-1] = x["parts"][-1] + ["1RB---_1LA0LA"]
        elif e["k"] == "finish":
          x["hold"] = x["hold"][1:] if x["hold"] else ["1RB---_1LA0LA"]
        else:
          full = [cl for cl in CLASSES if x["files"][cl]]
          if not full:
            continue
          x["files"][full[0]] = x["files"][full[0]][1:]
        d["id"] = len(cases) + len(canaries)
        canaries.append(d)
  verdicts, _ = vlib.judge("FilterRounds", cases + canaries, ctx)
  ctx.traces -= len(canaries)
  bad = [c for c in cases if verdicts[c["id"]][0] != "ok"]
  if not bad:
    for c in canaries:
      if verdicts[c["id"]][0] == "ok":
        raise vlib.MachineryError("canary accepted")
  ctx.count("canaries_rejected", len(canaries))
  for c in bad:
    v, rest = verdicts[c["id"]]
    at = int(rest[0]) - 1 if rest else -1
    e = cams[c["id"]].events[at] if 0 <= at < len(cams[c["id"]].events) else {}
    ctx.violation("%s:%s:%s" % (v, e.get("k"), vlib.short_hash(c["all"])), "%s in event %d: %s" % (
      v, at + 1, {k: (x if len(str(x)) < 400 else str(x)[:400]) for k, x in e.items()}), {"all": c["all"], "events": cams[c["id"]].events})
  for c in cams:
    p = os.path.join(c.d, "refused")
    if os.path.exists(p):
      ctx.violation("removes-elsewhere", "the scripts remove files outside of the campaign's directory: %s" % open(p).read()[:300])
    for e in c.events:
      ctx.count("events_" + e["k"] + ("" if e["rc"] == 0 else "_refused"))
  ctx.sample({"machines": cams[0].all, "events": [{k: e[k] for k in ("k", "rc", "cmd") if k in e} for e in cams[0].events]})

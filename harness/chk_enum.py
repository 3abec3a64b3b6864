"""Enumeration: completeness, exactness, splitting and resuming (P12-P14).

The tree is specified in Enumeration.tla.  TLC explores the small trees completely (no node
twice, every machine of the size in it up to renaming) and judges every record a real
enumeration writes: its verdict, and which children the tree has below it.  The records of an
enumeration must be exactly its roots plus the children of its halting records, each once -
whatever the order, however it was cut."""
import collections
import os
import re
import shutil

import tms
import vlib
from chk_pipe import judge_lr, lr_case


def spec_tree(ctx):
  """The specified tree: normal form, no duplicates, complete."""
  jobs = [(2, 2, 12)]
  jobs += [(3, 2, 30), (2, 3, 50)] if ctx.thorough else [[(3, 2, 30), (2, 3, 50)][ctx.seed % 2]]
  for S, Y, lim in jobs:
    for first in (0, 1):
      for nohalt in (0, 1):
        env = {"STATES": S, "SYMBOLS": Y, "LIMIT": lim, "FIRST": first, "NOHALT": nohalt}
        a = vlib.tlc("EnumTree", env=env)
        b = vlib.tlc("EnumTree", env=env, cfg="EnumTreeNodes.cfg")
        ctx.add_tlc(a)
        if a.distinct != b.distinct:
          raise vlib.MachineryError("the specified tree reaches a node twice")
        ctx.count("spec_tree_nodes", b.distinct)
  for S, Y, lim, stride in [(2, 2, 12, 1), (3, 2, 30, ctx.size(4001, 301)), (2, 3, 50, ctx.size(4003, 307))]:
    r = vlib.tlc("EnumComplete", env={"STATES": S, "SYMBOLS": Y, "LIMIT": lim, "STRIDE": stride, "PHASE": ctx.seed})
    ctx.add_tlc(r)
    ctx.count("spec_machines_followed_%dx%d" % (S, Y), r.distinct)


class Pool:
  """Distinct node/verdict cases to be judged by TLC together."""

  def __init__(self, ctx):
    self.ctx = ctx
    self.cases, self.index = [], {}

  def add(self, tt, k, n, nohalt, score=-1, fq=-1, fs=-1):
    c = {"tm": tt, "k": k, "n": n, "score": score, "fq": fq, "fs": fs, "nohalt": nohalt}
    key = (tms.to_text(tt), k, n, nohalt, score, fq, fs)
    if key not in self.index:
      self.index[key] = len(self.cases)
      self.cases.append(dict(c, id=len(self.cases)))
    return self.index[key]

  def run(self):
    rng = self.ctx.rng
    can = []
    halts = [c for c in self.cases if c["k"] == "halt"]
    for c in rng.sample(halts, min(5, len(halts))):
      can.append(dict(c, id=10**7 + len(can), n=c["n"] + 1))
      can.append(dict(c, id=10**7 + len(can), k="inf"))
    self.verdicts, _ = vlib.judge("EnumCases", self.cases + can, self.ctx)
    self.ctx.traces -= len(can)
    if all(self.verdicts[c["id"]][0] == "ok" for c in self.cases):
      for c in can:
        if self.verdicts[c["id"]][0] == "ok":
          raise vlib.MachineryError("canary accepted: %s" % c)
      self.ctx.count("canaries_rejected", len(can))

  def children(self, cid):
    return [x for x in self.verdicts[cid][1][-1].split(",") if x]


def node_of(ctx, rec, where, nohalt):
  """The tree node of a record (undoing the halting transition written into it)."""
  tt = [[list(c) for c in row] for row in rec["tm"]]
  st = rec["st"]
  marks = [(q, s) for q, row in enumerate(tt) for s, c in enumerate(row) if c[0] >= 0 and c[2] < 0]
  if st["decided"] and st["halting"]:
    at = (st["fq"], st["fs"])
    if marks != [at] or tt[at[0]][at[1]] != [1, 1, -1]:
      ctx.violation("halt-cell:%s" % tms.to_text(tt), "%s: the halting record %s of %s is not marked 1RZ exactly where it halts" % (
        where, st, tms.to_text(tt)))
    for q, s in marks:
      tt[q][s] = list(tms.UNDEF)
  elif marks:
    ctx.violation("halt-mark:%s" % tms.to_text(tt), "%s: %s is marked as halting without a halting verdict" % (where, tms.to_text(tt)))
  return tt


def add_python(ctx, pool, recs, nohalt, bound, where, no_steps=False):
  out = []
  for rec in recs:
    tt = node_of(ctx, rec, where, nohalt)
    st = rec["st"]
    if not st["decided"]:
      cid, k = pool.add(tt, "unk", 0, nohalt), "unk"
    elif st["halting"]:
      if not isinstance(st["steps"], int) or not isinstance(st["score"], int) or st["steps"] > 100000:
        # beyond the bound: cannot be judged (not expected at these sizes and limits)
        ctx.count("too_long")
        return None
      cid, k = pool.add(tt, "halt", st["steps"], nohalt, st["score"], st["fq"], st["fs"]), "halt"
    else:
      cid, k = pool.add(tt, "inf", bound, nohalt), "inf"
    out.append((tms.to_text(tt), k, cid))
    ctx.count("records_" + k)
  return out


def tree_law(ctx, pool, nodes, roots, where, data, dup_ok=False):
  """records = roots + children of halting records, each exactly once."""
  bad = 0
  expected = collections.Counter(roots)
  for text, k, cid in nodes:
    v = pool.verdicts[cid][0]
    if v != "ok":
      bad += 1
      if bad <= 3:
        ctx.violation("%s:%s" % (v, text), "%s: verdict of %s fails: %s %s" % (
          where, text, v, {x: y for x, y in pool.cases[cid].items() if x not in ("tm", "id")}), data)
    if k == "halt":
      expected.update(pool.children(cid))
  got = collections.Counter(t for t, _, _ in nodes)
  for text, n in list((got - expected).items())[:3]:
    ctx.violation("extra:%s" % text, "%s: machine %s is written %d times, the tree has it %d times" % (
      where, text, got[text], expected[text]), data)
  for text, n in list((expected - got).items())[:3]:
    ctx.violation("missing:%s" % text, "%s: machine %s of the tree is missing (%d of %d)" % (
      where, text, got[text], expected[text]), data)
  ctx.count("enumerations")


def root(S, Y, first):
  tt = [[list(tms.UNDEF) for _ in range(Y)] for _ in range(S)]
  if first:
    tt[0][0] = [1, 1, 1]
  return tms.to_text(tt)


SIM_OPTS = [[], [], ["--lin-steps", "0"], ["--lin-steps", "20", "--lin-min"], ["--no-ctl", "--no-reverse-engineer"],
            ["--no-prover"], ["--block-size", "2"], ["--no-backsymbol"], ["--recursive", "--limited-rules"], ["--max-loops", "40"]]


def enum_args(rng, S, Y, first, nohalt, sim):
  a = ["--states", str(S), "--symbols", str(Y)] + (["--allow-no-halt"] if nohalt else []) + ([] if first else ["--no-first-1rb"])
  x = rng.random()
  if x < .35:
    a += ["--breadth-first"]
  if rng.random() < .5:
    a += ["--randomize", "--seed", str(rng.randrange(1, 10**6))]
  if rng.random() < .5:
    a += ["--save-freq", str(rng.choice([1, 7, 1000]))]
  if rng.random() < .5:
    a += ["--time", "0"]
  return a + sim


DEEP = [(4, 2), (5, 2), (6, 2), (8, 2), (3, 3), (2, 4), (2, 5), (4, 3), (3, 4), (2, 6), (2, 9), (10, 2)]


def deep_python(ctx, pool, jobs):
  """The subtrees below nodes with few undefined cells left, at sizes whose whole tree is out of reach."""
  rng = ctx.rng
  tasks = []
  for S, Y in DEEP:
    for nohalt in (0, 1):
      for u in (1, 2, 3) if ctx.thorough else (rng.choice([1, 2]), rng.choice([2, 3])):
        nodes = tms.deep_nodes(rng, S, Y, u, ctx.size(4, 12) if u < 3 else 1)
        rng.shuffle(nodes)
        if nodes:
          sim = rng.choice(SIM_OPTS)
          tasks.append({"nodes": [tms.to_text(x) for x in nodes], "nohalt": bool(nohalt), "S": S, "Y": Y,
                        "args": sim + ["--time", "0", "--num-enum", str(ctx.size(300, 3000))] + ["--breadth-first"] * rng.randrange(2)})
  for t, (st, r) in zip(tasks, vlib.record("drv_enum", "subtrees", tasks, timeout=ctx.size(300, 800))):
    where = "Enumerate %s below %s%s" % (" ".join(t["args"]), ",".join(t["nodes"]), " (machines without halt allowed)" * t["nohalt"])
    if st == "hang":
      ctx.count("abandoned_subtrees")
      continue
    if st != "ok":
      ctx.violation("deep:%s:%dx%d" % (st, t["S"], t["Y"]), "%s: %s" % (where, (r or "no end")[-600:]), t)
      continue
    nodes = add_python(ctx, pool, r, int(t["nohalt"]), 100, where)
    if nodes is not None:
      jobs.append((nodes, t["nodes"], where, t))
      ctx.count("subtrees", len(t["nodes"]))


def deep_cpp(ctx, b, pool, lrs, jobs):
  rng = ctx.rng
  d = cpp_dir(ctx, "deep")
  for S, Y in DEEP:
    for nohalt in (0, 1):
      roots, us = {}, []
      for u in (1, 2, 3) if S * Y <= 10 or ctx.thorough else (1, 2):
        for x in tms.deep_nodes(rng, S, Y, u, ctx.size(4, 15) if u < 3 else 1):
          roots[tms.to_text(x)] = x
      if not roots:
        continue
      with open(os.path.join(d, "in"), "w") as f:
        f.write("".join(x + "\n" for x in roots))
      lim = rng.choice([20, 64, 150])
      if run_cpp(ctx, [os.path.join(b, "lr_enum_continue"), "in", str(lim), "h", "i", "u", "0", "true" if nohalt else "false"], "deep:%dx%d" % (S, Y), d) is None:
        continue
      # every undefined cell is filled in at most 2 * S * Y ways (or left)
      most = sum(sum((2 * S * Y) ** j for j in range(1 + sum(c[0] < 0 for row in x for c in row))) for x in roots.values())
      lines = 0
      for a in "hiu":
        with open(os.path.join(d, a)) as f:
          lines += sum(1 for _ in f)
      if lines > most:
        ctx.violation("deep-size:%dx%d" % (S, Y), "lr_enum_continue to %d below %s writes %d machines; there are at most %d below these" % (
          lim, ",".join(roots), lines, most), list(roots))
        continue
      recs = []
      for a in "hiu":
        recs += parse_lr(os.path.join(d, a))
      where = "lr_enum_continue to %d below %s%s" % (lim, ",".join(roots), " (machines without halt allowed)" * nohalt)
      jobs.append((add_cpp(ctx, pool, lrs, recs, nohalt, lim, where), list(roots), where, list(roots)))
      ctx.count("cpp_subtrees", len(roots))


def p12(ctx):
  rng = ctx.rng
  spec_tree(ctx)
  tasks = []
  for first in (1, 0):
    for nohalt in (0, 1):
      for _ in range(ctx.size(3, 6)):
        sim = rng.choice(SIM_OPTS)
        tasks.append((2, 2, first, nohalt, sim, enum_args(rng, 2, 2, first, nohalt, sim)))
      for S, Y in ((3, 2), (2, 3)) if ctx.thorough or (first and not nohalt) else (rng.choice([(3, 2), (2, 3)]),):
        sim = rng.choice(SIM_OPTS)
        tasks.append((S, Y, first, nohalt, sim, enum_args(rng, S, Y, first, nohalt, sim)))
  nfull = len(tasks)
  for S, Y in [(4, 2), (5, 2), (6, 2), (7, 2), (8, 2), (10, 2), (3, 3), (2, 4), (2, 5), (4, 3), (2, 7), (2, 8), (2, 9), (3, 8), (2, 10), (8, 3)]:
    for _ in range(ctx.size(1, 4)):
      first, nohalt = rng.random() < .7, rng.random() < .4
      sim = rng.choice(SIM_OPTS)
      n = rng.choice([60, 300, 900]) if ctx.tier == "quick" else rng.choice([300, 2000, 6000])
      tasks.append((S, Y, int(first), int(nohalt), sim, enum_args(rng, S, Y, first, nohalt, sim) + ["--num-enum", str(n)]))
  recs = vlib.record("drv_enum", "enum_and_count", [{"args": t[5], "nohalt": bool(t[3]), "count": bool(t[2])} for t in tasks], timeout=ctx.size(300, 800))
  pool = Pool(ctx)
  jobs, again = [], []
  for j, (t, (st, r)) in enumerate(zip(tasks, recs)):
    S, Y, first, nohalt, sim, args = t
    where = "Enumerate %s" % " ".join(args)
    if st != "ok":
      ctx.violation("enum:%s:%dx%d" % (st, S, Y), "%s: %s" % (where, (r or "no end")[-600:]), args)
      continue
    nodes = add_python(ctx, pool, r["records"], nohalt, 60 if S * Y <= 6 else 150, where)
    if nodes is None:
      continue
    jobs.append((nodes, [root(S, Y, first)], where, args))
    n = S * Y
    if first:
      # the machines written stand for all machines of the size: the total has a closed form
      want = (n - 1) * (2 * n) ** (n - 2) + ((2 * n) ** (n - 1) if nohalt else 0)
      ctx.count("totals_compared")
      if r["total"] != want:
        ctx.violation("count:%dx%d:%d" % (S, Y, nohalt), "%s: the counting tool says the records stand for %d machines, there are %d" % (
          where, r["total"], want), args)
    for (text, k, cid), rec in rng.sample(list(zip(nodes, r["records"])), min(len(nodes), ctx.size(40, 300))):
      if rec["ran"]:
        again.append((text, sim, nohalt, rec["st"], where))
      elif j < nfull:
        ctx.violation("not-run:%s" % text, "%s: %s was written without having been analysed" % (where, text), args)
  deep_python(ctx, pool, jobs)
  pool.run()
  for nodes, roots, where, args in jobs:
    tree_law(ctx, pool, nodes, roots, where, args)
  ctx.sample({"enumerations": [w for _, _, w, _ in jobs[:6]]})
  res = vlib.record("drv_enum", "reanalyse", [{"tm": a[0], "args": a[1], "nohalt": bool(a[2])} for a in again], timeout=100)
  for (text, sim, nohalt, st, where), (ok, r) in zip(again, res):
    if ok != "ok":
      continue
    ctx.count("reanalysed")
    if r is None:
      if st["decided"]:
        ctx.violation("reanalysis:%s" % text, "%s: recorded %s, on its own the analysis of %s fails" % (where, st, text))
    elif r != st:
      ctx.violation("reanalysis:%s" % text, "%s: recorded %s, on its own the analysis of %s gives %s" % (where, st, text, r))


# ------------------------------------------------------------------------ C++

def parse_lr(path):
  """lr_enum's output files -> [(text, kind, fields)]"""
  import gzip
  out = []
  op = gzip.open if path.endswith(".gz") else open
  with op(path, "rt") as f:
    for line in f:
      line = line.rstrip("\n")
      if not line:
        continue
      parts = line.split(" | ")
      m = re.fullmatch(r"Halt (\d+)", parts[1]) if len(parts) == 2 else None
      if m:
        out.append((parts[0], "halt", (int(m.group(1)),)))
        continue
      m = re.fullmatch(r"Lin_Recur (\d+) (-?\d+) <(\d+)", parts[1]) if len(parts) == 2 else None
      if m:
        out.append((parts[0], "lr", tuple(int(x) for x in m.groups())))
      elif len(parts) == 1 and " " not in line:
        out.append((line, "unk", ()))
      else:
        out.append((line, "garbled", ()))
  return out


def cpp_dir(ctx, name):
  d = os.path.join(vlib.scratch(), name)
  os.makedirs(d, exist_ok=True)
  return d


def run_cpp(ctx, cmd, key, cwd):
  rc, so, se = vlib.run_cmd(cmd, timeout=400, cwd=cwd)
  if rc != 0:
    ctx.violation("cpp:%s" % key, "%s ended with %s: %s" % (" ".join(cmd), rc, se[-300:]), cmd)
    return None
  return so


def add_cpp(ctx, pool, lrs, recs, nohalt, limit, where):
  """Like add_python, for lr_enum records; Lin recurrence certificates go to `lrs`."""
  nodes = []
  for text, k, f in recs:
    if k == "garbled":
      ctx.violation("garbled:%s" % text, "%s: cannot read the line %r" % (where, text))
      continue
    tt = tms.from_text(text)
    if k == "halt":
      cid = pool.add(tt, "halt", f[0], nohalt)
    elif k == "lr":
      cid = pool.add(tt, "inf", min(limit, 400), nohalt)
      lrs[(text,) + f] = tt
    else:
      cid = pool.add(tt, "unk", min(limit, 400), nohalt)
    nodes.append((text, "halt" if k == "halt" else "inf", cid))
    ctx.count("cpp_records_" + k)
  return nodes


def judge_lrs(ctx, lrs):
  cases, names = [], {}
  for (text, p, o, s), tt in sorted(lrs.items(), key=lambda x: x[0]):
    names[len(cases)] = text
    cases.append(lr_case(len(cases), tt, "lr", s, p, o, 0))
  cap = ctx.size(6000, 60000)
  if len(cases) > cap:
    cases = ctx.rng.sample(cases, cap)
  judge_lr(ctx, cases, "enumerated recurrence", names)


def stats(so):
  m = None
  for m in re.finditer(r"Total: (\d+)  Halt: (\d+)  Infinite: (\d+)  Unknown: (\d+)  Max Period: (\d+)", so):
    pass
  return tuple(int(x) for x in m.groups()) if m else None


def lr_enum(ctx, b, S, Y, steps, nohalt, tag, gz=False, only=False):
  d = cpp_dir(ctx, "lr-%s" % tag)
  cmd = [os.path.join(b, "lr_enum"), str(S), str(Y), str(steps), "h", "i", "u", "true" if nohalt else "false",
         "true" if gz else "false", "true" if only else "false"]
  so = run_cpp(ctx, cmd, "lr_enum:%dx%d" % (S, Y), d)
  if so is None:
    return None
  recs = []
  for f in "hiu":
    recs += parse_lr(os.path.join(d, f + (".gz" if gz else "")))
  return recs, stats(so), d, " ".join(cmd[1:])


def build_variants(ctx):
  """The normal build and the one without Boost (compression off)."""
  b = vlib.cpp_build()
  b2 = os.path.join(vlib.scratch(), "cppnoboost")
  rc, so, se = vlib.run_cmd(["cmake", "-S", os.path.join(vlib.REPO, "cpp"), "-B", b2, "-G", "Ninja",
                             "-DCMAKE_DISABLE_FIND_PACKAGE_Boost=ON"], timeout=200)
  if rc == 0:
    rc, so, se = vlib.run_cmd(["ninja", "-C", b2, "lr_enum"], timeout=300)
  return b, (b2 if rc == 0 else None)


def p13(ctx):
  rng = ctx.rng
  b, b2 = build_variants(ctx)
  pool, lrs, jobs = Pool(ctx), {}, []
  plan = []
  for nohalt in (0, 1):
    plan += [(2, 2, rng.choice([16, 40, 100]), nohalt, rng.random() < .5, 0, b), (2, 2, rng.choice([3, 5, 8]), nohalt, False, 0, b)]
    sizes = [(3, 2), (2, 3)] if ctx.thorough or not nohalt else [rng.choice([(3, 2), (2, 3)])]
    for S, Y in sizes:
      plan.append((S, Y, rng.choice([25, 60, 200]), nohalt, rng.random() < .3, 0, b))
      plan.append((S, Y, rng.choice([6, 10, 17]), nohalt, False, 0, b))
    # larger sizes with tiny limits: the tree is cut where the run is longer than the limit
    for S, Y, n in [(4, 2, 4), (3, 3, 4), (2, 4, 4), (5, 2, 4), (6, 2, 4), (2, 5, 4), (10, 2, 4), (2, 9, 4)]:
      plan.append((S, Y, 5 if ctx.thorough and (S, Y) == (2, 4) else n, nohalt, False, 0, b))
  plan += [(3, 2, 50, 0, False, 1, b), (2, 2, 50, 0, False, 1, b)]
  if b2:
    plan += [(2, 2, 50, 0, False, 0, b2), (3, 2, 30, 0, False, 0, b2), (2, 2, 50, 0, False, 1, b2)]
  for j, (S, Y, steps, nohalt, gz, only, bb) in enumerate(plan):
    if gz and bb is b2:
      continue
    r = lr_enum(ctx, bb, S, Y, steps, nohalt, str(j), gz, bool(only))
    if r is None:
      continue
    recs, st, d, cmd = r
    where = "lr_enum %s%s" % (cmd, " (built without Boost)" if bb is b2 else "")
    k = collections.Counter(x[1] for x in recs)
    if only:
      # asked to write only the unknown ones: they must be the unknown ones of the full run
      full = lr_enum(ctx, b, S, Y, steps, nohalt, str(j) + "full")
      if full:
        want = sorted(x[0] for x in full[0] if x[1] == "unk")
        if sorted(x[0] for x in recs) != want or st is None or full[1] is None or st[:4] != full[1][:4]:
          ctx.violation("only-unknown:%dx%d" % (S, Y), "%s: writes %d machines, the unknown ones are %d" % (where, len(recs), len(want)), cmd)
      continue
    if st is None or st[:4] != (len(recs), k["halt"], k["lr"], k["unk"]) or st[4] != max([x[2][0] for x in recs if x[1] == "lr"] + [0]):
      ctx.violation("stats:%s" % where, "%s: the totals printed %s are not those of the records %s" % (where, st, dict(k)), cmd)
    jobs.append((add_cpp(ctx, pool, lrs, recs, nohalt, steps, where), [root(S, Y, 1)], where, cmd))
  deep_cpp(ctx, b, pool, lrs, jobs)
  lb(ctx, b, pool)
  pool.run()
  for nodes, roots, where, cmd in jobs:
    tree_law(ctx, pool, nodes, roots, where, cmd)
  judge_lb(ctx, pool)
  judge_lrs(ctx, lrs)
  ctx.sample({"enumerations": [w for _, _, w, _ in jobs[:6]]})


def spec_steps(ctx, S, Y, lim, cache={}):
  """Halting steps of the specified tree (first transition free), by TLC."""
  if (S, Y, lim) not in cache:
    r = vlib.tlc("EnumTree", env={"STATES": S, "SYMBOLS": Y, "LIMIT": lim, "FIRST": 0, "NOHALT": 0}, cfg="EnumSteps.cfg",
                 timeout=2000)
    ctx.add_tlc(r)
    cache[(S, Y, lim)] = {int(x[2:]) for x in r.lines if x.startswith("H|")}
  return cache[(S, Y, lim)]


def first_hole(steps):
  n = 1
  while n in steps:
    n += 1
  return n


_lb_jobs = []


def read_witnesses(path):
  out = []
  for line in open(path):
    a, b = line.rstrip("\n").split("\t")
    out.append((int(a), b))
  return out


def lb(ctx, b, pool):
  _lb_jobs.clear()
  rng = ctx.rng
  plan = [(2, 2, 15), (2, 2, rng.choice([2, 4, 6, 7, 8])), (3, 2, 30), (2, 3, 50), (3, 2, rng.choice([5, 12, 22, 23]))]
  if ctx.thorough:
    plan += [(4, 2, 110), (2, 3, 33), (2, 3, 34)]
  for j, (S, Y, lim) in enumerate(plan):
    d = cpp_dir(ctx, "lb-%d" % j)
    cmd = [os.path.join(b, "lb_enum"), str(S), str(Y), str(lim), "w", "n"]
    so = run_cpp(ctx, cmd, "lb_enum:%dx%d" % (S, Y), d)
    if so is None:
      continue
    wit = read_witnesses(os.path.join(d, "w"))
    ids = [(text, pool.add(tms.from_text(text), "halt", n, 0)) for n, text in wit]
    m = re.search(r"LB\((\d+), (\d+)\) = (\d+)", so)
    _lb_jobs.append((S, Y, lim, wit, ids, int(m.group(3)) if m else None, "lb_enum %d %d %d" % (S, Y, lim), so))


def judge_lb(ctx, pool):
  for S, Y, lim, wit, ids, value, where, so in _lb_jobs:
    steps = spec_steps(ctx, S, Y, {(2, 2): 15, (3, 2): 30, (2, 3): 50, (4, 2): 110}[(S, Y)])
    check_witnesses(ctx, pool, wit, ids, {n for n in steps if n <= lim}, where)
    want = first_hole({n for n in steps if n <= lim})
    if want >= lim:
      want = None
    ctx.count("lazy_beaver_values")
    if value != want:
      ctx.violation("lb:%dx%d:%d" % (S, Y, lim), "%s: Lazy Beaver value %s printed, the tree's is %s" % (where, value, want), so[-500:])


def check_witnesses(ctx, pool, wit, ids, steps, where):
  for text, cid in ids:
    v = pool.verdicts[cid][0]
    ctx.count("lazy_beaver_witnesses")
    if v != "ok":
      ctx.violation("lb-witness:%s:%s" % (v, text), "%s: witness %s for step %d: %s" % (where, text, pool.cases[cid]["n"], v))
  got = [n for n, _ in wit]
  if len(set(got)) != len(got) or set(got) != steps:
    ctx.violation("lb-steps:%s" % where, "%s: steps realised %s..., the tree's are %s..." % (
      where, sorted(set(got) ^ steps)[:8], len(steps)))


# ------------------------------------------------------------------------ P14

def p14(ctx):
  rng = ctx.rng
  spec_tree(ctx)
  tasks = []
  for j in range(ctx.size(26, 160)):
    S, Y = rng.choice([(2, 2), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4), (8, 2), (9, 2), (2, 7), (2, 8), (2, 9), (5, 2)])
    big = S * Y > 6
    first, nohalt = int(rng.random() < .7), int(rng.random() < .5)
    sim = ["--time", "0"] + rng.choice(SIM_OPTS)
    order = (["--breadth-first"] if rng.random() < .4 else []) + (["--randomize", "--seed", str(rng.randrange(1, 9999))] if rng.random() < .4 else [])
    n = rng.choice([1, 2, 3])
    cuts = [rng.choice([1, 2, 3, 5, 10, 50, 200] if not big else [1, 5, 40, 120]) for _ in range(n)]
    tasks.append({"args": ["--states", str(S), "--symbols", str(Y)] + (["--allow-no-halt"] if nohalt else []) + ([] if first else ["--no-first-1rb"]),
                  "common": sim + order, "cuts": cuts, "last": rng.choice([30, 150]) if big else None,
                  "shuffle": rng.random() < .6, "split": rng.choice([1, 1, 2, 3]), "seed": rng.getrandbits(30),
                  "S": S, "Y": Y, "first": first, "nohalt": nohalt})
  recs = vlib.record("drv_enum", "pieces", tasks, timeout=ctx.size(300, 800))
  pool, lrs, jobs = Pool(ctx), {}, []
  for t, (st, r) in zip(tasks, recs):
    where = "Enumerate %s in pieces cut after %s, split in %d" % (" ".join(t["args"] + t["common"]), t["cuts"], t["split"])
    if st != "ok":
      ctx.violation("pieces:%s:%dx%d:nohalt%d" % (st, t["S"], t["Y"], t["nohalt"]), "%s: %s" % (where, (r or "no end")[-700:]), t)
      continue
    nodes = add_python(ctx, pool, r["records"], t["nohalt"], 60, where)
    if nodes is not None:
      jobs.append((nodes, [root(t["S"], t["Y"], t["first"])], where, t))
  b = vlib.cpp_build()
  reruns(ctx, pool, jobs)
  cpp_pieces(ctx, b, pool, lrs, jobs)
  lbp = lb_pieces(ctx, b, pool)
  parallel_scripts(ctx, b, pool, lrs, jobs, lbp)
  pool.run()
  for nodes, roots, where, t in jobs:
    tree_law(ctx, pool, nodes, roots, where, t)
  for wit, ids, steps, where, so, se in lbp:
    check_witnesses(ctx, pool, wit, ids, steps, where)
  judge_lrs(ctx, lrs)
  ctx.sample({"cut enumerations": [w for _, _, w, _ in jobs[:6]]})


WEAK = [["--lin-steps", "3", "--max-loops", "2", "--no-ctl", "--no-reverse-engineer"], ["--lin-steps", "30", "--no-sim"],
        ["--lin-steps", "0", "--max-loops", "20"], []]


def reruns(ctx, pool, jobs):
  """A second analysis of machines whose records carry the results of a first one."""
  rng = ctx.rng
  tasks = []
  for j in range(ctx.size(14, 80)):
    S, Y = rng.choice([(2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4)])
    first, nohalt = int(rng.random() < .7), int(rng.random() < .5)
    cut = ["--num-enum", str(rng.choice([3, 20, 80, 300]))] if S * Y > 6 or rng.random() < .3 else []
    a, b = rng.choice(WEAK), rng.choice(WEAK + SIM_OPTS)
    if a == b:
      b = []
    t = [["--time", "0"], ["--time", "100"]]
    tasks.append({"args": ["--states", str(S), "--symbols", str(Y)] + (["--allow-no-halt"] if nohalt else []) + ([] if first else ["--no-first-1rb"]) + cut,
                  "first": rng.choice(t) + a, "second": rng.choice(t) + b + ["--num-enum", "600"], "most": 400, "nohalt": nohalt, "S": S, "Y": Y})
  for t, (st, r) in zip(tasks, vlib.record("drv_enum", "rerun", tasks, timeout=ctx.size(300, 800))):
    where = "Enumerate %s, then again with %s on the machines not seen to halt" % (" ".join(t["args"] + t["first"]), " ".join(t["second"]))
    if st != "ok":
      ctx.violation("rerun:%s:%dx%d" % (st, t["S"], t["Y"]), "%s: %s" % (where, (r or "no end")[-700:]), t)
      continue
    ctx.count("reruns")
    ctx.count("records_put_in_again", len(r["roots"]))
    nodes = add_python(ctx, pool, r["old"], t["nohalt"], 60, where)
    if nodes is not None:
      jobs.append((nodes, [tms.to_text(x) for x in r["roots"]], where, t))
    if r["old"] != r["new"]:
      bad = [(x, y) for x, y in zip(r["old"], r["new"]) if x != y][:1] or [(len(r["old"]), len(r["new"]))]
      ctx.violation("rerun-differs:%dx%d" % (t["S"], t["Y"]), "%s: from the records of the first run %s, from fresh ones %s" % (where, *bad[0]), t)


def faults(ctx):
  """Enumerations in which single analyses fail or run out of time (used by P20)."""
  rng = ctx.rng
  tasks = []
  for j in range(ctx.size(40, 200)):
    S, Y = rng.choice([(2, 2), (2, 2), (3, 2), (2, 3), (4, 2), (3, 3), (2, 4)])
    first, nohalt = int(rng.random() < .7), int(rng.random() < .5)
    kind = ["alarm", "error", "memory", "depth"][j % 4]
    args = enum_args(rng, S, Y, first, nohalt, rng.choice(SIM_OPTS))
    args = [a for k, a in enumerate(args) if a != "--time" and (k == 0 or args[k - 1] != "--time")]
    args += ["--time", "1000" if kind == "alarm" or rng.random() < .5 else "0"] + ["--num-enum", str(rng.choice([40, 150]))] * (S * Y > 4)
    tasks.append({"args": args, "seed": rng.random(), "kind": kind, "faults": rng.choice([1, 3, 8, 30]), "gap": rng.choice([3, 15, 60, 300]),
                  "S": S, "Y": Y, "first": first, "nohalt": nohalt})
  pool, jobs = Pool(ctx), []
  for t, (st, r) in zip(tasks, vlib.record("drv_enum", "faulty", tasks, timeout=ctx.size(300, 800))):
    where = "Enumerate %s with failing analyses (%s)" % (" ".join(t["args"]), t["kind"])
    if st == "hang":
      ctx.count("abandoned_enumerations")
      continue
    if st != "ok":
      ctx.violation("faulty-enum:%s:%s" % (t["kind"], st), "%s: %s" % (where, (r or "")[-700:]), t)
      continue
    ctx.count("analyses_made_to_fail", len(r["fired"]))
    nodes = add_python(ctx, pool, r["records"], t["nohalt"], 60, where)
    if nodes is not None:
      jobs.append((nodes, [root(t["S"], t["Y"], t["first"])], where, t))
  pool.run()
  for nodes, roots, where, t in jobs:
    tree_law(ctx, pool, nodes, roots, where, t)


def cpp_pieces(ctx, b, pool, lrs, jobs):
  rng = ctx.rng
  scripts = os.path.join(vlib.REPO, "cpp", "scripts")
  for j in range(ctx.size(8, 40)):
    S, Y = rng.choice([(2, 2), (3, 2), (2, 3)]) if j % 3 else rng.choice([(4, 2), (2, 4), (3, 3)])
    nohalt = rng.randrange(2)
    if S * Y <= 6:
      limits = sorted(rng.sample([2, 3, 4, 5, 6, 8, 11, 15, 24, 40], rng.choice([2, 3])))
    else:
      limits = rng.choice([[2, 3], [2, 4], [3, 4], [2, 3, 4]])
    r = lr_enum(ctx, b, S, Y, limits[0], nohalt, "c%d" % j)
    if r is None:
      continue
    recs, st, d, cmd = r
    where = "lr_enum %s" % cmd
    ok = True
    done = [x for x in recs if x[1] != "unk"]
    pending = ["u"]
    for k, lim in enumerate(limits[1:]):
      parts, nxt, unk = rng.choice([1, 2, 3, 5]), [], []
      for f in pending:
        so = run_cpp(ctx, [vlib.PY, os.path.join(scripts, "shuffle_split.py"), f, str(parts)], "shuffle_split", d)
        if so is None:
          ok = False
          break
        for p in range(parts):
          gz = k == len(limits) - 2 and rng.random() < .3
          base = "%s-%d-%d" % (f, k, p)
          so = run_cpp(ctx, [os.path.join(b, "lr_enum_continue"), "%s.part_%d_of_%d" % (f, p, parts), str(lim), "h" + base, "i" + base, "u" + base,
                             str(p), "true" if nohalt else "false", "true" if gz else "false"], "lr_enum_continue", d)
          if so is None:
            ok = False
            break
          sfx = ".gz" if gz else ""
          got = []
          for a in "hiu":
            got += parse_lr(os.path.join(d, a + base + sfx))
          done += [x for x in got if x[1] != "unk"]
          unk += [x for x in got if x[1] == "unk"]
          nxt.append("u" + base)
      pending = nxt
      where += " | split in %d, lr_enum_continue to %d" % (parts, lim)
    if ok:
      jobs.append((add_cpp(ctx, pool, lrs, done + unk, nohalt, limits[-1], where), [root(S, Y, 1)], where, where))


# The scripts remove directories: whatever they name, only what lies in their scratch directory is removed.
RM = """#!/bin/bash
for a in "$@"; do
  case "$a" in
    -*) ;;
    *) p=$(realpath -m -- "$a")
       case "$p/" in
         "$SCRATCH_DIR"/?*) /bin/rm -rf -- "$p" ;;
         *) echo "$p" >> "$SCRATCH_DIR/refused" ;;
       esac ;;
  esac
done
"""
# Stands in for the continuing program: part number $DIES is killed, before or after its work.
DYING = """#!/bin/bash
for a in "$@"; do last=$a; done
n=$%d
if [ "$n" = "$DIES" ]; then
  [ "$AFTER" = 1 ] && "$REAL" "$@" > /dev/null
  kill -KILL $$
fi
exec "$REAL" "$@"
"""


def parallel_scripts(ctx, b, pool, lrs, jobs, lbp):
  """The scripts that enumerate with several processes: the same results as one process, or an error."""
  rng = ctx.rng
  r = vlib.tlc("ParallelEnum", cfg="ParallelEnumBig.cfg" if ctx.thorough else None)
  ctx.add_tlc(r)
  t = vlib.tlc("ParallelEnum", cfg="ParallelEnumCareless.cfg", allow_violation=True)
  if t.violation != "Whole":
    raise vlib.MachineryError("merging without all parts is not refuted: %s" % t.violation)
  for j in range(ctx.size(15, 60)):
    kind = ["lr", "lb", "dev_null"][j % 3]
    dies = j // 3 % 2 == 1
    d = os.path.realpath(cpp_dir(ctx, "par%d" % j))
    shutil.copytree(os.path.join(vlib.REPO, "cpp", "scripts"), os.path.join(d, "scripts"))
    os.makedirs(os.path.join(d, "bin"))
    def prog(path, text):
      with open(path, "w") as f:
        f.write(text)
      os.chmod(path, 0o755)
    prog(os.path.join(d, "bin", "rm"), RM)
    for x in ("lr_enum", "lr_enum_continue", "lb_enum", "lb_enum_continue"):
      if dies and x.endswith("continue"):
        prog(os.path.join(d, x), DYING % (6 if x[1] == "r" else 4))
      else:
        os.symlink(os.path.join(b, x), os.path.join(d, x))
    S, Y = rng.choice([(2, 2), (3, 2), (2, 3)])
    nohalt, parts = rng.randrange(2), rng.choice([1, 2, 3, 4])
    env = dict(os.environ, PATH="%s:%s:%s" % (os.path.join(d, "bin"), "/opt/venv/bin", os.environ.get("PATH", "/usr/bin:/bin")), SCRATCH_DIR=d,
               DIES=str(rng.randrange(parts)) if dies else "none", AFTER=str(rng.randrange(2)),
               REAL=os.path.join(b, "lb_enum_continue" if kind == "lb" else "lr_enum_continue"))
    if kind == "lb":
      init, lim = rng.choice([1, 2, 3, 5]), {4: 15, 6: 30}[S * Y] if Y == 2 else 50
      args = [S, Y, init, lim, parts]
      gz = only = False
    else:
      init, lim = sorted(rng.sample([2, 3, 4, 6, 8, 11, 15, 24, 40], 2))
      gz, only = kind == "lr" and rng.random() < .3, kind == "lr" and rng.random() < .25
      args = [S, Y, "true" if nohalt else "false", init, lim, parts]
      if kind == "lr" and (gz or only or rng.random() < .5):
        args += ["true" if gz else "false"] + (["true" if only else "false"] if only or rng.random() < .5 else [])
    name = {"lr": "lr_enum_local_parallel.sh", "lb": "lb_enum_local_parallel.sh", "dev_null": "lr_enum_local_parallel_dev_null.sh"}[kind]
    where = "scripts/%s %s%s" % (name, " ".join(map(str, args)), " with part %s killed" % env["DIES"] if dies else "")
    rc, so, se = vlib.run_cmd(["bash", os.path.join("scripts", name)] + [str(x) for x in args], timeout=300, cwd=d, env=env)
    ctx.count("parallel_runs" + "_part_killed" * dies)
    if dies:
      if rc == 0:
        ctx.violation("part-died:%s" % name, "%s: ends with 0 as if nothing were missing" % where, args)
      continue
    if rc != 0:
      ctx.violation("script:%s" % name, "%s: ends with %s: %s" % (where, rc, se[-400:]), args)
      continue
    data = os.path.join(d, "data", "lazy_beaver", "%dx%d" % (S, Y), str(init)) if kind == "lb" else os.path.join(
      d, "data", "lin_recur", "%dx%d" % (S, Y), str(lim), str(parts))
    try:
      if kind == "lb":
        wit = []
        with open(os.path.join(data, "steps_final")) as f:
          for line in f:
            a, t = line.rstrip("\n").split("\t")
            wit.append((int(a), t))
        ids = [(text, pool.add(tms.from_text(text), "halt", n, 0)) for n, text in wit]
        lbp.append((wit, ids, spec_steps(ctx, S, Y, lim), where, so, se))
        continue
      sfx = "_final.txt" + ".gz" * gz
      unk = parse_lr(os.path.join(data, "unknown" + sfx))
      if kind == "lr" and not only:
        recs = parse_lr(os.path.join(data, "halt" + sfx)) + parse_lr(os.path.join(data, "inf" + sfx)) + unk
        jobs.append((add_cpp(ctx, pool, lrs, recs, nohalt, lim, where), [root(S, Y, 1)], where, args))
        continue
    except (OSError, EOFError, ValueError) as e:
      ctx.violation("script-output:%s" % name, "%s: %s" % (where, e), args)
      continue
    full = lr_enum(ctx, b, S, Y, lim, nohalt, "parfull%d" % j)
    if full:
      want = sorted(x[0] for x in full[0] if x[1] == "unk")
      if sorted(x[0] for x in unk) != want:
        ctx.violation("script-unknown:%s" % name, "%s: %d unknown machines, one process finds %d" % (where, len(unk), len(want)), args)


def lb_pieces(ctx, b, pool):
  rng = ctx.rng
  scripts = os.path.join(vlib.REPO, "cpp", "scripts")
  out = []
  for j in range(ctx.size(4, 16)):
    S, Y, lim = rng.choice([(2, 2, 15), (3, 2, 30), (2, 3, 50)])
    init = rng.choice([1, 2, 3, 5, 9])
    d = cpp_dir(ctx, "lbc-%d" % j)
    if run_cpp(ctx, [os.path.join(b, "lb_enum"), str(S), str(Y), str(init), "steps_init", "tms"], "lb_enum", d) is None:
      continue
    parts = rng.choice([1, 2, 4])
    if run_cpp(ctx, [vlib.PY, os.path.join(scripts, "shuffle_split.py"), "tms", str(parts)], "shuffle_split", d) is None:
      continue
    ok = True
    for p in range(parts):
      ok = ok and run_cpp(ctx, [os.path.join(b, "lb_enum_continue"), "tms.part_%d_of_%d" % (p, parts), str(lim), "steps_%d" % p, str(p)],
                          "lb_enum_continue", d) is not None
    if not ok:
      continue
    cmd = [vlib.PY, os.path.join(scripts, "merge_steps_examples.py")] + ["steps_init"] + ["steps_%d" % p for p in range(parts)]
    rc, so, se = vlib.run_cmd(cmd, cwd=d, timeout=100)
    where = "lb_enum %d %d %d, continued to %d in %d parts and merged" % (S, Y, init, lim, parts)
    if rc != 0:
      ctx.violation("merge", "%s: %s" % (where, se[-300:]))
      continue
    wit = []
    for line in so.splitlines():
      a, t = line.split("\t")
      wit.append((int(a), t))
    ids = [(text, pool.add(tms.from_text(text), "halt", n, 0)) for n, text in wit]
    steps = spec_steps(ctx, S, Y, lim)
    holes = [n for n in range(min(steps), max(steps)) if n not in steps]
    m = re.search(r"Min un-attained steps:(.*)", se)
    if not m or [int(x) for x in m.group(1).split()] != holes[:20] or "Total un-attained steps: %d" % len(holes) not in se:
      ctx.violation("merge-holes:%s" % where, "%s: holes %s, the tree's are %s" % (where, se.strip()[-200:], holes[:20]))
    out.append((wit, ids, steps, where, so, se))
  return out

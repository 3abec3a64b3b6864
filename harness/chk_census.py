"""P22: counts, neighbours and printed tables."""
import vlib
from chk_io import any_tm


def node(rng, S, Y):
  """A machine as in the tree: A0 is 1RB, names in order of first use down the table."""
  tt = [[[-1, -1, -1] for _ in range(Y)] for _ in range(S)]
  tt[0][0] = [1, 1, 1]
  q, w = 1, 1
  order = [(a, b) for a in range(S) for b in range(Y) if (a, b) != (0, 0)]
  rng.shuffle(order)
  n = rng.randrange(len(order) + 1)
  for a, b in order[:n]:
    c = [rng.randrange(min(Y, w + 2)), rng.randrange(2), rng.randrange(min(S, q + 2))]
    tt[a][b] = c
    w, q = max(w, c[0]), max(q, c[2])
  if n < len(order) and rng.random() < .4:
    tt[order[n][0]][order[n][1]] = [1, 1, -1]
  return tt


def adj(tt):
  out = []
  for q, row in enumerate(tt):
    for s, c in enumerate(row):
      if c[0] >= 0 and c[2] >= 0:
        for w in range(len(row)):
          for d in (0, 1):
            for n in range(len(tt)):
              if [w, d, n] != c:
                t = [[list(x) for x in r] for r in tt]
                t[q][s] = [w, d, n]
                out.append(t)
  return out


def p22(ctx):
  rng = ctx.rng
  ctx.add_tlc(vlib.tlc("CensusMC"))
  q = ctx.size(1, 8)
  jobs = []
  for S, Y, n in [(2, 2, 0), (3, 2, 0), (2, 3, 0), (4, 2, 1500), (2, 4, 1500), (3, 3, 800), (5, 2, 800), (2, 5, 500), (4, 3, 300)]:
    for nohalt in (False, True):
      args = ["--states", str(S), "--symbols", str(Y)] + (["--allow-no-halt"] if nohalt else []) + (["--num-enum", str(n * q)] if n else [])
      jobs.append(("counts", {"args": args, "complete": not n, "S": S, "Y": Y, "keep": ctx.size(150, 800),
                              "nodes": [node(rng, S, Y) for _ in range(40 * q)]}))
  for _ in range(16 * q):
    tms = [any_tm(rng, rng.randrange(1, 5), rng.randrange(2, 4)) for _ in range(4)]
    tms[0] = any_tm(rng, rng.randrange(1, 4), 2)
    jobs.append(("neighbours", {"tms": tms, "want": adj(tms[0]), "arg": rng.random() < .5}))
  for _ in range(8 * q):
    jobs.append(("tables", {"tms": [any_tm(rng, rng.randrange(1, 10), rng.choice([2, 2, 3, 5])) for _ in range(4)]}))
  cases, src = [], []
  for fn in sorted(set(j[0] for j in jobs)):
    mine = [t for f, t in jobs if f == fn]
    for t, (st, r) in zip(mine, vlib.record("drv_census", fn, mine, timeout=ctx.size(200, 800))):
      if st != "ok":
        what = (r or "hang").strip().splitlines()
        ctx.violation("%s:%s" % (fn, what[0][:80]), "%s of %s: %s" % (fn, str(t)[:300], (r or "hang")[-900:]), {"fn": fn, "task": t})
        continue
      ctx.count(fn)
      for c in r:
        c["id"] = len(cases)
        cases.append(c)
        src.append(fn)
  for c in cases:
    ctx.count("cases_" + c["k"])
  verdicts, _ = vlib.judge("CensusCases", cases, ctx)
  for c in cases:
    v = verdicts[c["id"]][0]
    if v != "ok":
      ctx.violation("%s:%s:%s" % (src[c["id"]], v, vlib.short_hash(c.get("tm", [c.get("S"), c.get("Y")]))),
                    "%s: %s (%s)" % (src[c["id"]], v, str(c)[:600]), {"case": c})
  for k in ("count", "adjacent", "table"):
    x = [c for c in cases if c["k"] == k]
    if x:
      ctx.sample(x[len(x) // 2])

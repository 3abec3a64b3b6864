"""P21: record tools conserve records."""
import vlib
from chk_io import any_tm

CONVERSIONS = [(a, b) for a in ("proto", "text", "morphett", "bbc_db", "bbc_index", "bbc_index_text")
               for b in ("proto", "text", "morphett", "text_old")]


def full_tm(rng, S, Y, ph=.15):
  """Every cell defined (so that names are the same in every format)."""
  return [[[rng.randrange(Y), rng.randrange(2), -1 if rng.random() < ph else rng.randrange(S)] for _ in range(Y)]
          for _ in range(S)]


def bbc_tm(rng):
  return [[[-1, -1, -1] if c[2] < 0 and c[0] == 0 else c for c in row] for row in any_tm(rng, 5, 2)]


def p21(ctx):
  rng = ctx.rng
  ctx.add_tlc(vlib.tlc("RecordToolsMC"))
  q = ctx.size(2, 16)
  jobs = []

  def some(n, maxS=5, maxY=4):
    out = [any_tm(rng, rng.randrange(1, maxS + 1), rng.randrange(2, maxY + 1)) for _ in range(n)]
    for _ in range(n // 4):          # repeated machines
      out[rng.randrange(n)] = rng.choice(out)
    return out

  def add(fn, **task):
    jobs.append((fn, dict(task, seed=rng.random())))
  for _ in range(16 * q):
    add("categorize", tms=some(rng.choice([0, 1, 6, 20])))
    add("sort", tms=some(rng.choice([0, 1, 6, 20])))
    add("sample", tms=some(rng.choice([0, 1, 6, 12])))
    add("count", tms=some(rng.choice([0, 1, 6, 12])))
    add("find", tms=some(rng.choice([1, 6, 12]), 9, 5), other=any_tm(rng, 3, 3))
    add("zero", tms=some(rng.choice([0, 1, 12])))
    add("stats", tms=some(rng.choice([0, 1, 12])))
    add("resim", tms=some(6, 3, 3))
  for _ in range(2 * q):
    add("freq", tms=[full_tm(rng, 3, 2) for _ in range(8)], of=rng.choice([3, 5, 8]), n=rng.choice([1, 2]), runs=ctx.size(2500, 6000))
  for _ in range(6 * q):
    for kind in ("CTL1", "CTL2", "CTL3", "CTL4", "CPS", "RE", "BT"):
      add("filters", tms=[any_tm(rng, *rng.choice([(2, 2), (2, 2), (3, 2), (2, 3), (4, 2)])) for _ in range(10)], filter=kind)
  for _ in range(3 * q):
    for a, b in CONVERSIONS:
      if a.startswith("bbc"):
        tms = [full_tm(rng, 5, 2, 0) if b == "morphett" else bbc_tm(rng) for _ in range(rng.choice([1, 3, 8]))]
      elif "morphett" in (a, b):
        tms = [full_tm(rng, rng.randrange(1, 6), rng.randrange(2, 5))]
      else:
        tms = some(rng.choice([1, 3, 8]))
      add("convert", tms=tms, **{"in": a, "out": b})
  cases, src = [], []
  for fn in sorted(set(j[0] for j in jobs)):
    mine = [t for f, t in jobs if f == fn]
    for t, (st, r) in zip(mine, vlib.record("drv_tools", fn, mine, timeout=200)):
      if st != "ok":
        what = (r or "hang").strip().splitlines()
        ctx.violation("%s:%s" % (fn, what[0][:80]), "%s of %s: %s" % (fn, str(t)[:300], (r or "hang")[-900:]), {"tool": fn, "task": t})
        continue
      ctx.count(fn)
      for c in r:
        c["id"] = len(cases)
        cases.append(c)
        src.append((fn, t))
  for c in cases:
    ctx.count("records_in", sum(map(len, c["ins"])))
    if c["k"] == "filter":
      ctx.count("filter_successes", sum(c["success"]))
  verdicts, _ = vlib.judge("RecordToolCases", cases, ctx)
  for c in cases:
    v = verdicts[c["id"]][0]
    if v != "ok":
      fn, t = src[c["id"]]
      ctx.violation("%s:%s:%s" % (fn, v.rstrip("0123456789-"), vlib.short_hash(t)), "%s: %s (%s)" % (fn, v, str(c)[:900]),
                    {"tool": fn, "task": t, "case": c})
  for k in ("categorize", "filter", "convert"):
    x = [c for c in cases if c["k"] == k]
    if x:
      ctx.sample(x[len(x) // 2])

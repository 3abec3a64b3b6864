"""P16: stored records read back unchanged."""
import random

import tms
import vlib
from bbcfmt import bbc_bytes


def any_tm(rng, S, Y):
  tt = []
  pu, ph = rng.choice([0, .1, .4, .9]), rng.choice([0, .1, .3])
  for q in range(S):
    row = []
    for s in range(Y):
      x = rng.random()
      row.append([-1, -1, -1] if x < pu else
                 [rng.choice([rng.randrange(Y), Y - 1, 0]), rng.randrange(2),
                  -1 if rng.random() < ph else rng.choice([rng.randrange(S), S - 1, 0])])
    tt.append(row)
  return tt


def sized(rng, maxS, maxY):
  S = rng.choice([1, 2, 3, 5, 6, 7, 8, 9, 10, 15, 23, 24, 25, 26, 27, 40])
  Y = rng.choice([2, 2, 3, 4, 6, 7, 8, 9, 10, 11, 20])
  return any_tm(rng, min(S, maxS), min(Y, maxY))


def p16(ctx):
  rng = ctx.rng
  ctx.add_tlc(vlib.tlc("RecordFileMC"))
  tasks, kinds = [], []

  def add(fn, task):
    tasks.append(task)
    kinds.append(fn)
  q = ctx.size(1, 12)
  for j in range(24 * q):
    batch = [any_tm(rng, rng.randrange(1, 8), rng.randrange(2, 8)) for _ in range(25)] + [sized(rng, 40, 20) for _ in range(6)]
    if j == 0:
      batch += [any_tm(rng, S, Y) for S in (6, 7, 8, 9) for Y in (6, 7, 8, 9, 10)]
      batch += [any_tm(rng, S, Y) for S in (23, 24, 25, 26, 27) for Y in (2, 3, 9, 10, 11)]
    add("machines", {"tms": batch})
  for j in range(4 * q):
    packed, bbc = [], []
    for _ in range(60):
      S, Y = rng.randrange(1, 8), rng.randrange(2, 8)
      bs = []
      for a in range(S):
        for b in range(Y):
          sym = rng.randrange(Y + 1)
          bs.append(sym + 8 * rng.randrange(S + 1) + 64 * rng.randrange(2) + (128 if b == 0 else 0)) if sym else bs.append(128 if b == 0 else 0)
      packed.append(bs)
      bbc.append(bbc_bytes(any_tm(rng, 5, 2)))
    add("raw_bytes", {"packed": packed, "bbc": bbc})
  for j in range(10 * q):
    batch = []
    while len(batch) < 12:
      tt = sized(rng, 40, 20) if rng.random() < .4 else any_tm(rng, rng.randrange(1, 6), rng.randrange(2, 5))
      if all(c[0] < 0 for c in tt[0]):
        continue
      states = symbols = None
      if rng.random() < .5:
        states = ["s%d" % k for k in range(len(tt))]
        rng.shuffle(states)
      if rng.random() < .5:
        symbols = rng.sample("abcdefghijklmnopqrstuvwxyz0123456789", len(tt[0]))
      batch.append((tt, states, symbols, rng.random() < .4))
    add("morphett", {"tms": batch})
  for j in range(24 * q):
    n = rng.choice([1, 2, 3, 5, 12])
    small = rng.random() < .5
    add("proto_file", {"tms": [any_tm(rng, rng.randrange(1, 4), 2) if small else sized(rng, 27, 11) for _ in range(n)],
                       "seed": rng.random(), "gz": j % 3 == 0, "cuts": ctx.size(20, 60)})
  for j in range(2 * q):      # records whose length needs more than two bytes
    full = [[[rng.randrange(100), rng.randrange(2), rng.randrange(200)] for _ in range(100)] for _ in range(200)]
    add("proto_file", {"tms": [any_tm(rng, 3, 2), full, any_tm(rng, 2, 3)], "seed": rng.random(), "gz": j % 2 == 1, "cuts": 6})
  for j in range(12 * q):
    add("text_file", {"tms": [sized(rng, 24, 9) for _ in range(rng.randrange(1, 8))], "seed": rng.random(), "gz": j % 3 == 0})
  for j in range(8 * q):
    m = []
    while len(m) < 1 + j % 7:
      tt = any_tm(rng, 5, 2)
      # 0?Z cells are the format's way of saying "undefined".
      m.append([[[-1, -1, -1] if c[2] < 0 and c[0] == 0 else c for c in row] for row in tt])
    add("bbc_file", {"tms": m, "bytes": [bbc_bytes(tt) for tt in m], "seed": rng.random(), "cuts": 12})
  cases, src = [], []
  for fn in sorted(set(kinds)):
    idx = [j for j, k in enumerate(kinds) if k == fn]
    recs = vlib.record("drv_io", fn, [tasks[j] for j in idx])
    for j, (st, r) in zip(idx, recs):
      if st != "ok":
        what = (r or "hang").strip().splitlines()
        ctx.violation("%s:%s" % (fn, what[0][:80]), "%s of %s: %s" % (fn, str(tasks[j])[:300], (r or "hang")[-600:]), tasks[j])
        continue
      ctx.count(fn)
      for c in r:
        c["id"] = len(cases)
        cases.append(c)
        src.append((fn, j))
  for c in cases:
    ctx.count("cases_" + c["k"])
    if c["k"] == "file":
      ctx.count("reads", len(c["reads"]))
  verdicts, _ = vlib.judge("RecordCases", cases, ctx)
  for c in cases:
    v = verdicts[c["id"]][0]
    if v != "ok":
      fn, j = src[c["id"]]
      ctx.violation("%s:%s:%s" % (fn, v, vlib.short_hash(c.get("tm") or c.get("recs") or c.get("bytes"))),
                    "%s: %s (%s)" % (fn, v, str(c)[:700]), {"case": c})
  for k in ("machine", "morphett", "file"):
    x = [c for c in cases if c["k"] == k]
    if x:
      ctx.sample({a: b for a, b in x[len(x) // 2].items() if a != "reads"})

"""P23: closed position set certificates."""
import re

import tms
import vlib
from chk_filter import all_2x2, machines


class Unreadable(Exception):
  pass


def parse(line, tm, b, w):
  """"TM Result nl (src dst)* nr (src dst)* n config*" -> (cfgs, edges), or None for "Nothing"."""
  t = line.split()
  if t[0] != tm:
    raise Unreadable("other machine")
  if t[1:] == ["Nothing"]:
    return None
  if t[1] != "Result":
    raise Unreadable("no result")
  pos, edges = 2, []
  for d in (0, 1):
    n = int(t[pos])
    pos += 1
    for _ in range(n):
      edges.append([d, [int(x) for x in t[pos]], [int(x) for x in t[pos + 1]]])
      pos += 2
  n = int(t[pos])
  if len(t) != pos + 1 + n:
    raise Unreadable("count of windows")
  cfgs = []
  for x in t[pos + 1:]:
    m = re.fullmatch(r"(\d*)(?:<([A-Z])|([A-Z])>)(\d*)", x)
    if not m:
      raise Unreadable("window %r" % x)
    left, right = m.group(1), m.group(4)
    d = 0 if m.group(2) else 1
    if len(left if d == 0 else right) != b:
      raise Unreadable("head position in %r" % x)
    cfgs.append({"q": ord(m.group(2) or m.group(3)) - 65, "d": d, "win": [int(c) for c in left + right]})
  return cfgs, edges


def p23(ctx):
  rng = ctx.rng
  for S, Y, stride in [(2, 2, ctx.size(7, 1))] + ([(3, 2, 2003), (2, 3, 2011)] if ctx.thorough else []):
    r = vlib.tlc("CPSCert", env={"STATES": S, "SYMBOLS": Y, "BOUND": ctx.size(8, 14), "STRIDE": stride, "PHASE": ctx.seed, "CASES": ""},
                 cfg="CPSCertSound.cfg")
    ctx.add_tlc(r)
    ctx.count("spec_machine_parameter_pairs", r.distinct // 2)
  items = machines(ctx, ctx.size(300, 3000), ctx.size(750, 10000), ctx.size(1500, 12000))
  items += [(tt, None) for j, tt in enumerate(all_2x2()) if j % ctx.size(9, 2) == ctx.seed % ctx.size(9, 2)]
  items = [x for x in items if len(x[0]) <= 25 and len(x[0][0]) <= 10]
  tasks = []
  for tt, _ in items:
    runs = []
    for _ in range(2):
      b = rng.choice([1, 1, 2, 2, 3])
      w = rng.choice([2 * b, 2 * b + 1, 3 * b, 3 * b, 4 * b])
      big = rng.random() < .7
      runs.append([b, w, rng.choice([1000, 20000]), 200 if big else rng.choice([1, 2, 5]), 80 if big else rng.choice([1, 5, 30]), 150])
    tasks.append({"tm": tms.to_text(tt), "runs": runs, "explicit": rng.random() < .5})
  ctx.count("machines", len(items))
  cases, desc = [], {}
  for (tt, _), t, (st, r) in zip(items, tasks, vlib.record("drv_cert", "cert", tasks, timeout=60)):
    if st == "hang":
      ctx.count("abandoned")
      continue
    if st != "ok":
      ctx.violation("cert:%s:%s" % (st, t["tm"]), "CPS %s: %s" % (t, (r or "")[-500:]), t)
      continue
    for run, text in zip(t["runs"], r):
      b, w = run[:2]
      where = "CPS.py %s %d %d" % (t["tm"], b, w)
      lines = [x for x in text.splitlines() if " Result " in x or x.endswith(" Nothing")]
      try:
        if len(lines) != 1:
          raise Unreadable("%d certificates" % len(lines))
        c = parse(lines[0], t["tm"], b, w)
      except (Unreadable, ValueError, IndexError) as e:
        ctx.violation("unreadable:%s:%d:%d" % (t["tm"], b, w), "%s: certificate cannot be read (%s): %s" % (where, e, "".join(lines)[:400]), t)
        continue
      claimed = "INF_CLOSED_GRAPH" in text or "is_decided: true" in text
      if (c is not None) != claimed:
        ctx.violation("claim:%s:%d:%d" % (t["tm"], b, w), "%s: %s certificate, %s verdict" % (
          where, "no" if c is None else "a", "infinite" if claimed else "no"), t)
      ctx.count("answers")
      if c is None:
        continue
      cid = len(cases)
      desc[cid] = where
      cases.append({"id": cid, "tm": tt, "b": b, "w": w, "cfgs": c[0], "edges": c[1]})
  if len(cases) > ctx.size(2500, 25000):
    cases = rng.sample(cases, ctx.size(2500, 25000))
  ctx.count("certificates", len(cases))
  can = []
  for c in rng.sample(cases, min(12, len(cases))):
    x = len(can) % 3
    if x == 0 and len(c["cfgs"]) > 1:
      start = {"q": 0, "d": 1, "win": [0] * c["w"]}
      rest = [y for y in c["cfgs"] if y != start]
      can.append(dict(c, cfgs=rest, id=10**7 + len(can)))
    elif x == 1:
      can.append(dict(c, edges=[e for e in c["edges"] if any(e[1]) or any(e[2])], id=10**7 + len(can)))
    else:
      tt = [[[1, 1, -1] for _ in row] for row in c["tm"]]
      can.append(dict(c, tm=tt, id=10**7 + len(can)))
  verdicts, _ = vlib.judge("CPSCert", cases + can, ctx, env={"STATES": 2, "SYMBOLS": 2, "BOUND": 1, "STRIDE": 1, "PHASE": 0})
  ctx.traces -= len(can)
  for c in cases:
    v = verdicts[c["id"]][0]
    if v != "ok":
      ctx.violation("%s:%s" % (v, desc[c["id"]]), "%s: the certificate is not a proof: %s (%d windows, %d edges)" % (
        desc[c["id"]], v, len(c["cfgs"]), len(c["edges"])), {"cmd": desc[c["id"]]})
  for c in can:
    if verdicts[c["id"]][0] == "ok":
      raise vlib.MachineryError("canary accepted: %s" % c)
  ctx.count("canaries_rejected", len(can))
  for c in cases[:3]:
    ctx.sample({"certificate": desc[c["id"]], "windows": len(c["cfgs"]), "edges": len(c["edges"])})

"""P17: big-number arithmetic.  P18: symbolic algebra."""
import vlib


def judge(ctx, module, cases, what):
  for j, c in enumerate(cases):
    c["id"] = j
  send = [{k: v for k, v in c.items() if k != "what"} for c in cases]
  verdicts, _ = vlib.judge(module, send, ctx)
  for c in cases:
    v = verdicts[c["id"]][0]
    ctx.count(c["k"])
    if v == "cannot-tell":
      ctx.count("not_decided_" + c["k"])
    elif v != "ok":
      ctx.violation("%s:%s" % (v, vlib.short_hash([c.get("e"), c.get("f"), c.get("k")])),
                    "%s: %s (%s)" % (what, v, str(c)[:600]), c)


def run(ctx, driver, fn, tasks, cases):
  for t, (st, r) in zip(tasks, vlib.record(driver, fn, tasks, timeout=ctx.size(120, 300))):
    if st != "ok":
      ctx.violation("%s:%s" % (fn, (r or "hang").splitlines()[0][:80]), "%s %s: %s" % (fn, t, (r or "hang")[-700:]), t)
      continue
    ctx.count("declined", r[1])
    cases += r[0]


def p17(ctx):
  ctx.add_tlc(vlib.tlc("BigNumSelf"))
  rng = ctx.rng
  cases = []
  run(ctx, "drv_num", "numbers", [{"seed": rng.random(), "n": 700} for _ in range(ctx.size(16, 160))], cases)
  run(ctx, "drv_num", "helpers", [{"seed": rng.random(), "n": 60} for _ in range(ctx.size(8, 40))], cases)
  run(ctx, "drv_num", "fixed", [{}], cases)
  judge(ctx, "BigNumCases", cases, "big numbers")
  for c in cases[:3]:
    ctx.sample(c)


def p18(ctx):
  ctx.add_tlc(vlib.tlc("AlgebraSelf"))
  rng = ctx.rng
  cases = []
  for fn, n, k in (("algebra", 60, 24), ("small", 60, 12), ("series", 60, 16), ("rules", 40, 12), ("symexp", 60, 12)):
    run(ctx, "drv_alg", fn, [{"seed": rng.random(), "n": n} for _ in range(ctx.size(k, 12 * k))], cases)
  judge(ctx, "AlgebraCases", cases, "algebra")
  for c in cases[:2]:
    ctx.sample(c)

"""P20: interruption by the time limit."""
import chk_enum
import tms
import vlib
from chk_pipe import halt_claim, lr_case, pick, quasi_fields, random_args, judge_lr
from chk_sim import judge_cases


def models(ctx):
  r = vlib.tlc("TimedAnalysis")
  ctx.add_tlc(r)
  t = vlib.tlc("TimedAnalysis", cfg="TimedAnalysisTorn.cfg", allow_violation=True)
  if not t.violation:
    raise vlib.MachineryError("the torn record is not found in the model without clearing")
  ctx.add_tlc(vlib.tlc("TimedRuns"))
  t = vlib.tlc("TimedRuns", cfg="TimedRunsStray.cfg", allow_violation=True)
  if not t.violation:
    raise vlib.MachineryError("the stray alarm is not found in the model which leaves the timer running")


# Machines whose analysis with these options is far from finished after any
# limit used here, each stuck in a different part of it.
PLAIN = ["--no-reverse-engineer", "--no-ctl", "--lin-steps", "0", "--no-prover", "--max-loops", "1000000000", "--tape-limit", "1000000000", "--block-size", "1", "--no-backsymbol"]
ANTIHYDRA = "1RB1RA_0LC1LE_1LD1LC_1LA0LB_1LF1RE_---0RA"
SKELET1 = "1RB1RD_1LC0RC_1RA1LD_0RE0LB_---1RC"
ENDLESS = [
  (ANTIHYDRA, PLAIN), (SKELET1, PLAIN),                                         # simulator
  (SKELET1, ["--no-reverse-engineer", "--lin-steps", "2000000000"]),            # recurrence search
  (ANTIHYDRA, ["--no-reverse-engineer", "--no-ctl", "--lin-steps", "0", "--no-prover", "--max-loops", "2000000000"]),   # block finder
]
SHORT = [
  ("1RB1LB_1LA1RZ", []), ("1RB1LC_1LA1RD_1RZ0LD_1RD0RA", []), ("1RB---_1LA1RB", []),
  ("1RB2LA1RA1RA_1LB1LA3RB1RZ", ["--no-ctl", "--lin-steps", "0"]),
]


def real_limits(ctx):
  """The real timer: limits are obeyed, and only by the analysis they are for."""
  rng = ctx.rng
  tasks = []
  for j in range(ctx.size(16, 80)):
    runs = []
    for k in range(ctx.size(5, 9)):
      kind = rng.choice(["endless", "short", "fail"]) if k else ["endless", "short", "fail"][j % 3]
      text, args = rng.choice(ENDLESS if kind == "endless" else SHORT)
      limit = rng.choice([50, 120, 250, 400]) if kind == "endless" else 20000 if kind == "short" else rng.choice([60, 200])
      runs.append([text, args, limit, kind])
    tasks.append({"runs": runs, "slack": 30000, "idle": 450})
  cases = []
  for t, (st, r) in zip(tasks, vlib.record("drv_timer", "limits", tasks, timeout=120)):
    if st == "hang":
      ctx.violation("limits:hang", "analyses under time limits do not end: %s" % (t,), t)
      continue
    if st != "ok":
      ctx.violation("limits:exc", "analyses under time limits: %s: %s" % (t, (r or "")[-600:]), t)
      continue
    ctx.count("real_time_limits", sum(e["endless"] for e in r))
    bad = [e for e in r if e["error"]]
    if bad:
      ctx.violation("limits:%s" % bad[0]["error"][:60], "an analysis under a time limit: %s" % bad[0], t)
      continue
    cases.append({"id": len(cases), "h": r, "task": t})
  good = [c for c in cases if any(e["endless"] for e in c["h"])]
  can = []
  for f, v in [("timed", False), ("decided", True), ("took", 10**8), ("stray", True)]:
    if good:
      h = [dict(e) for e in good[0]["h"]]
      h[[e["endless"] for e in h].index(True)][f] = v
      can.append({"id": 1000 + len(can), "h": h})
  verdicts, _ = vlib.judge("TimedRunsCases", [{"id": c["id"], "h": c["h"]} for c in cases + can], ctx)
  for c in can:
    if verdicts[c["id"]][0] == "ok":
      raise vlib.MachineryError("TimedRunsCases accepts a falsified history")
    ctx.count("canaries_rejected")
  for c in cases:
    v = verdicts[c["id"]][0]
    if v != "ok":
      e = c["h"][int(v.rsplit("-", 1)[1]) - 1]
      ctx.violation("limits:%s" % v.rsplit("-", 1)[0], "analysis under a time limit: %s: %s" % (v, e), c["task"])


def p20(ctx):
  models(ctx)
  real_limits(ctx)
  rng = ctx.rng
  tasks, tts = [], []
  for j in range(ctx.size(160, 1200)):
    tt, steps = pick(ctx, "halt" if j % 2 else "run", 3000)
    if steps and steps > 3000:
      continue
    args = random_args(rng) if j % 3 else []
    x = rng.random()
    if j % 3 and x < .5:
      args = args + ["--lin-steps", "0", "--no-reverse-engineer"] + ["--no-ctl"] * (x < .3)
    args = [a for a in args if a != "--no-sim"] + ["--max-loops", "100"]
    tasks.append({"tm": tms.to_text(tt), "args": args, "seed": rng.random(), "max_points": ctx.size(20000, 100000),
                  "fine": ctx.size(160, 1500), "coarse": ctx.size(25, 200)})
    tts.append(tt)
  recs = vlib.record("drv_timer", "interrupted", tasks, timeout=ctx.size(60, 400))
  cases, lrs, desc = [], [], {}
  for tt, t, (st, r) in zip(tts, tasks, recs):
    if st == "exc":
      ctx.violation("exc:%s" % t["tm"], "interrupted analysis of %s %s: %s" % (t["tm"], t["args"], r[-500:]), t)
      continue
    if st == "hang":
      ctx.count("abandoned")
      continue
    if st != "ok" or r["skip"]:
      ctx.count("skipped")
      continue
    ctx.count("interruptions", r["tried"])
    ctx.count("analyses")
    for what, k in r["errors"]:
      if "ExpInt" not in what:
        ctx.violation("escapes:%s" % t["tm"], "interrupting %s %s at point %d: %s" % (t["tm"], t["args"], k, what), t)
    if r["again"] != r["full"]:
      ctx.violation("later:%s" % t["tm"], "analysis after interruptions differs: %s / %s" % (r["full"], r["again"]), t)
    for s, n, k in r["statuses"]:
      name = "interrupted at point %d of %s %s" % (k, t["tm"], " ".join(t["args"]))
      if not s["tm_unchanged"]:
        ctx.violation("tm:%s" % t["tm"], "the stored machine changed: " + name, t)
      if s["decided"]:
        ctx.count("decided_statuses")
        cid = len(cases)
        if s["halting"]:
          if s["steps"] is None or s["score"] is None:
            ctx.violation("torn:%s:%d" % (t["tm"], k), "halting verdict without %s, %s" % (
              "step count" if s["steps"] is None else "score", name), dict(t, point=k, status=s))
            continue
          if s["steps"] == "big" or s["score"] == "big" or s["steps"] > 20000:
            continue
          steps_on = "--no-steps" not in t["args"] and "--exp-linear-rules" not in t["args"]
          obs = [halt_claim(s["steps"] if steps_on else 3000, s["score"], s["fq"], s["fs"], k="halt" if steps_on else "halt?")]
        else:
          obs = [{"k": "inf", "n": 2500}]
        desc[cid] = name
        cases.append({"id": cid, "tm": tt, "track": 0, "obs": obs})
      else:
        ctx.count("undecided_statuses")
      # A quasihalting claim must be the one of the uninterrupted analysis (which P11 judges).
      if s["qdecided"]:
        f = r["full"]
        if (s["quasi"], s["qsteps"], s["qstate"]) != (f["quasi"], f["qsteps"], f["qstate"]) or not f["qdecided"]:
          ctx.violation("torn-quasi:%s:%d" % (t["tm"], k), "quasihalting claim differs from the complete one, %s: %s / %s" % (
            name, s, f), dict(t, point=k, status=s))
  judge_cases(ctx, cases, "verdict after interruption", lambda j, v: "%s:%s" % (v, desc[j % 10**7]), describe=lambda j: desc[j])
  for c in cases[:2]:
    ctx.sample({"tm": tms.to_text(c["tm"]), "claim": c["obs"][0], "where": desc[c["id"]]})
  chk_enum.faults(ctx)

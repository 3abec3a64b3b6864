"""Recorders for the simulators (run in worker processes, import the code under test)."""
import random

import Direct_Simulator
import Exp_Int
import io_pb2
import IO
from Macro import Simulator, Turing_Machine

import tms


def _dir_obs(sim):
  t = sim.tape
  lo, hi = t.pos_leftmost() - 2, t.pos_rightmost() + 2
  return {"k": "dir", "n": int(sim.step_num), "q": int(sim.state), "p": int(t.position),
          "lo": int(lo), "w": [int(t.read_pos(x)) for x in range(lo, hi + 1)]}


def _halt_obs(n, score=-1, fq=-1, fs=-1, undef=2, m=None):
  return {"k": "halt", "n": int(n), "score": int(score), "fq": int(fq), "fs": int(fs),
          "undef": undef, "hastape": 1 if m else 0,
          "m": m or {"q": -1, "dir": 0, "back": [], "l": [], "r": []}}


def direct(task):
  """Seek to each stop; observe full configuration. At some stops the simulation is copied
  (also before the first step and after the last) and every copy goes its own way: no
  simulation is affected by what happens to the others. Returns one list of claims each."""
  tm = IO.parse_tm(task["tm"])
  sim = Direct_Simulator.DirectSimulator(tm)
  if task.get("start"):
    q, lo, cells = task["start"]
    sim.state = q
    order = list(enumerate(cells))
    if task["copy"]:
      order.reverse()
    for j, c in order:
      sim.tape.write_pos(c, lo + j)
  sims = [sim]
  obs = [[]]
  done = [False]
  rng = random.Random(task["tm"])

  def go(j, n):
    s = sims[j]
    if done[j]:
      return
    if n - s.step_num <= 3 or rng.random() < .1:
      while not s.halted and s.step_num < n:
        s.step()
    else:
      s.seek(n)
    obs[j].append(_dir_obs(s))
    if s.halted:
      obs[j].append(_halt_obs(s.step_num, s.halt_score, s.halt_from_state, s.halt_from_symbol))
      s.step()
      s.seek(s.step_num + 10)
      obs[j].append(_halt_obs(s.step_num, s.halt_score, s.halt_from_state, s.halt_from_symbol))
      obs[j].append(_dir_obs(s))
      done[j] = True

  def fork(j):
    if len(sims) >= 5:
      return
    c = sims[j].copy()
    sims.append(c)
    obs.append([_dir_obs(c)])
    done.append(done[j])
    if done[j]:
      # a copy of a stopped simulation is stopped as well
      c.step()
      c.seek(c.step_num + 5)
      obs[-1].append(_dir_obs(c))
      obs[-1].append(_halt_obs(c.step_num))
      return
    # one of the two runs ahead, the other is looked at again afterwards
    a, b = (len(sims) - 1, j) if rng.random() < .5 else (j, len(sims) - 1)
    go(a, sims[a].step_num + rng.choice([1, 2, 7]))
    go(b, sims[b].step_num)
    go(b, sims[b].step_num + 1)

  if task["copy"]:
    fork(0)
  for n in task["stops"]:
    for j in range(len(sims)):
      go(j, max(n, sims[j].step_num))
    if task["copy"] and rng.random() < .4:
      fork(rng.randrange(len(sims)))
    if all(done):
      break
  if task["copy"]:
    fork(0)
  return obs


# ------------------------------------------------------------------ macro / rules

MAXNUM = 5000


def _small(x):
  if isinstance(x, int) and x < 0:
    raise ValueError("a block with a negative count: %d" % x)
  if isinstance(x, int) and 0 <= x <= MAXNUM:
    return int(x)
  raise OverflowError


def _block(sym):
  return [int(s) for s in sym] if isinstance(sym, tuple) else [int(sym)]


def _base_state(st):
  if isinstance(st, Turing_Machine.OffsetStartState):
    return int(st.state)
  return int(st)


def _macro_cfg(sim):
  st = sim.state
  back = []
  if isinstance(st, Turing_Machine.Backsymbol_Macro_Machine_State):
    back = _block(st.back_symbol)
    st = st.base_state
  halves = []
  for h in sim.tape.tape:
    bot = h[0]
    if any(_block(bot.symbol)):
      raise ValueError("infinite block is not blank: %r" % (bot,))
    halves.append([[_block(b.symbol), _small(b.num)] for b in h[1:]])
  return {"q": _base_state(st), "dir": int(sim.dir), "back": back, "l": halves[0], "r": halves[1]}


def build_machine(text, block=1, offset=0, back=False, gave_up=None):
  m = IO.parse_tm(text)
  if block > 1 or offset:
    m = Turing_Machine.Block_Macro_Machine(m, block, offset=offset or None)
  if back:
    m = Turing_Machine.Backsymbol_Macro_Machine(m)
  return m


def _obs_after_jump(sim, inf_bound, track, steps_known):
  """Claims about one simulator step from an arbitrary configuration."""
  if sim.op_state == Turing_Machine.INF_REPEAT:
    return [{"k": "inf", "n": inf_bound}]
  if sim.op_state == Turing_Machine.GAVE_UP:
    return []
  if steps_known and (not isinstance(sim.step_num, int) or sim.step_num > 60000):
    return []
  m = _macro_cfg(sim)
  if sim.op_state in (Turing_Machine.HALT, Turing_Machine.UNDEFINED):
    sym, st = sim.op_details[0]
    return [_halt_obs(sim.step_num, sim.get_nonzeros(), st, sym,
                      1 if sim.op_state == Turing_Machine.UNDEFINED else 0, m)] if steps_known else []
  if not steps_known:
    return [{"k": "reach", "n": inf_bound, "m": m}]
  out = [{"k": "cfg", "n": int(sim.step_num), "m": m}]
  if track and sim.states_last_seen is not None:
    out.append({"k": "seen", "n": int(sim.step_num),
                "w": [[int(q), int(n2)] for q, n2 in sim.states_last_seen.items()]})
  return out


# ---- what "applies infinitely" says

def _shape(sim):
  return (repr(sim.state), sim.dir, [[repr(b.symbol) for b in h] for h in sim.tape.tape])


def _rule_steps(rule, tape):
  """Steps that one application of `rule` takes from `tape` by the prover's own account."""
  from Algebraic_Expression import Expression, substitute
  values = {}
  if hasattr(rule, "initial_tape"):
    for init, half in zip(rule.initial_tape.tape, tape.tape):
      for a, b in zip(reversed(init), reversed(half)):
        if isinstance(a.num, Expression):
          values[a.num.variable()] = b.num - a.num.const
  else:
    for var, b in zip(rule.var_list, tape.tape[0] + tape.tape[1]):
      if var:
        values[var] = b.num
  n = substitute(rule.num_steps, values)
  return n if isinstance(n, int) else None


def _watch_rules(sim):
  """Remember the rule applied last (None if this prover works differently)."""
  last = [None]
  apply = getattr(sim.prover, "apply_rule", None)
  if apply:
    def wrapped(rule, *a, **k):
      last[0] = rule
      return apply(rule, *a, **k)
    sim.prover.apply_rule = wrapped
  return last


def _by_rule(sim):
  return sim.op_state == Turing_Machine.INF_REPEAT and getattr(sim, "inf_reason", None) == io_pb2.INF_PROOF_SYSTEM


def _again(machine, state, tape, loops, last, task):
  """`A rule applies infinitely` from this configuration means that the run comes back to a
  configuration of the same shape with no repetition count smaller than before (at once for
  a rule that increases everything, after some applications for one that has a fixed point).
  Claim that."""
  sim = Simulator.Simulator(machine, Simulator.create_default_options())
  sim.prover = None
  sim.state, sim.tape, sim.dir = state, tape.copy(), tape.dir
  start = _macro_cfg(sim)
  shape = _shape(sim)
  counts = lambda: [b.num for h in sim.tape.tape for b in h]
  size = len(_block(sim.tape.tape[0][0].symbol))
  recursive = task["opts"].get("recursive")
  fixed = not hasattr(last[0], "initial_tape") and not getattr(last[0], "infinite", False)
  past = [(0, counts(), start)]
  bound = 2 * loops + 10
  for j in range(4000 if recursive else bound * 12 if fixed else bound):
    sim.step()
    if sim.op_state != Turing_Machine.RUNNING or sim.step_num > 20000:
      return [start, []]      # other reasons apply, or too long to follow
    if _shape(sim) == shape:
      now = counts()
      for n, before, m in past:
        if all(x >= y for x, y in zip(now, before)):
          at = int(sim.step_num)
          return [start, [{"k": "cfg", "n": n, "m": m}, {"k": "again", "n": at, "from": at, "m": m, "b": size}]]
      if fixed and len(past) < 40:
        past.append((int(sim.step_num), now, _macro_cfg(sim)))
  claim = {"k": "again", "n": int(sim.step_num), "from": 1, "m": start, "b": size}
  if fixed:
    return [start, []]
  if not recursive:
    return [start, [claim]]
  if task["opts"].get("compute_steps", True) and not task["opts"].get("exp_linear_rules"):
    try:
      n = _rule_steps(last[0], tape)
    except (AttributeError, KeyError, TypeError, AssertionError, NotImplementedError):
      n = None
    if n is not None and 0 < n <= sim.step_num:
      claim["n"] = n
      return [start, [claim]]
  return [start, []]


def _other_surroundings(tape, rng):
  """Rules that claim to look at the nearby part of the tape only apply whatever lies beyond."""
  blank = tape.tape[0][0].symbol
  symbols = sorted({b.symbol for h in tape.tape for b in h}, key=repr)
  for h in tape.tape:
    keep = min(rng.randrange(0, len(h)), rng.randrange(0, len(h)))
    del h[1:1 + keep]
    for _ in range(rng.choice([0, 1, 1, 2])):
      sym = rng.choice(symbols)
      if len(h) == 1 or h[1].symbol != sym:
        block = h[0].copy()
        block.symbol, block.num = sym, rng.choice([1, 1, 2, 3])
        h.insert(1, block)
    while len(h) > 1 and h[1].symbol == blank:
      del h[1]


def _at_minimum(rule, tape, rng):
  """Give the repetition counts the smallest values the rule applies to (its
  own claim), some a little more.  False if this rule does not tell."""
  try:
    if hasattr(rule, "initial_tape"):
      pairs = []
      for mine, its in zip(tape.tape, rule.initial_tape.tape):
        pairs += list(zip(mine[::-1], [b.num for b in its[::-1]]))
      mins = [(b, int(num.const)) for b, num in pairs if not isinstance(num, (int, float))]
    else:
      blocks = tape.tape[0] + tape.tape[1]
      mins = [(b, int(low)) for b, var, low in zip(blocks, rule.var_list, rule.min_list) if var]
  except (AttributeError, TypeError, ValueError):
    return False
  for b, low in mins:
    if b.num == float("inf") or b.num == 1 or low > 200:
      return False
  for b, low in mins:
    b.num = max(2, low + rng.choice([0, 0, 0, 1, 2]))
  return bool(mins)


def _jumps(sim, marks, count, rng, task, last, kinds):
  """Re-apply what the simulator has learnt from configurations with the same
  shape as in `marks` but other repetition counts."""
  out = []
  steps_known = task["opts"].get("compute_steps", True)
  marks = list(marks.values())
  rng.shuffle(marks)
  for state, tape, rule_of in marks[:count * 3]:
    if len(out) >= count * 3:
      break
    for variant in range(7 if task["opts"].get("limited_rules") else 4):
      t = tape.copy()
      small = rng.random() < .7
      for h in t.tape:
        for b in h:
          if b.num != float("inf") and b.num != 1:
            b.num = rng.randrange(2, 9) if small else rng.choice([2, 3, 5, 8, 13, 21, 40, 77])
      if variant == 1:
        _at_minimum(rule_of, t, rng)
      elif task["opts"].get("limited_rules") and rng.random() < .6:
        _other_surroundings(t, rng)
      sim.tape = t
      sim.state = state
      sim.dir = t.dir
      start = t.copy()
      sim.op_state = Turing_Machine.RUNNING
      sim.step_num = 0
      sim.compute_steps = steps_known
      if steps_known:
        sim.states_last_seen = {}
        sim.steps_from_rule = sim.steps_from_chain = sim.steps_from_macro = 0
      try:
        init = _macro_cfg(sim)
        before = sim.num_rule_moves
        sim.step()
        rule = sim.num_rule_moves != before or sim.op_state == Turing_Machine.INF_REPEAT
        if rule or variant == 0:
          obs = _obs_after_jump(sim, task["inf_bound"], task["track"], steps_known and sim.compute_steps)
          if obs:
            out.append([init, obs])
          if _by_rule(sim):
            again = _again(sim.machine, state, start, sim.num_loops, last, task)
            kinds["recurs" if again[1] else "recurs_not_followed"] += 1
            if again[1]:
              out.append(again)
      except (OverflowError, Exp_Int.ExpIntException):
        pass
  return out


LATE = 12


def macro(task):
  """Run the accelerated simulator, observing it after its steps."""
  options = Simulator.create_default_options()
  for k, v in task.get("opts", {}).items():
    setattr(options, k, v)
  machine = build_machine(task["tm"], task["block"], task["offset"], task["back"])
  sim = Simulator.Simulator(machine, options)
  rng = random.Random(task["seed"])
  maxsteps = task["maxsteps"]
  inf_bound = task["inf_bound"]
  obs = []
  cells = 0
  last_rule = 0
  steps_known = options.compute_steps
  nobs = 0
  late, final = [], []
  marks = {}
  last = _watch_rules(sim)
  kinds = {"recurs": 0, "recurs_not_followed": 0}
  again = None
  recording = True
  # reach_bound: without step counts a configuration must show up later in the base run
  for loop in range(max(task["loops"], task.get("until_loops", 0))):
    if task.get("jumps"):
      before = (sim.state, sim.tape.copy())
    try:
      sim.step()
    except Exp_Int.ExpIntException:
      break     # documented: gives up on numbers it cannot compare
    if task.get("jumps") and (sim.num_rule_moves != last_rule or sim.op_state == Turing_Machine.INF_REPEAT):
      key = (repr(before[0]), before[1].dir, repr([[(b.symbol, b.num == 1) for b in h] for h in before[1].tape]))
      if len(marks) < 60:
        marks.setdefault(key, before + (last[0],))
      if _by_rule(sim):
        try:
          again = _again(machine, before[0], before[1], sim.num_loops, last, task)
          kinds["recurs" if again[1] else "recurs_not_followed"] += 1
        except OverflowError:
          pass
      if not recording:
        last_rule = sim.num_rule_moves
    if not recording:
      if sim.op_state != Turing_Machine.RUNNING:
        break
      continue
    if steps_known and not sim.compute_steps:
      steps_known = False
    if sim.op_state == Turing_Machine.INF_REPEAT:
      final.append({"k": "inf", "n": inf_bound})
      break
    if sim.op_state == Turing_Machine.GAVE_UP:
      break
    if steps_known:
      n = sim.step_num
      if not isinstance(n, int) or n > maxsteps:
        if task.get("until_loops"):
          recording = False
          last_rule = sim.num_rule_moves
          continue
        break
    is_rule = sim.num_rule_moves != last_rule
    last_rule = sim.num_rule_moves
    if sim.op_state in (Turing_Machine.HALT, Turing_Machine.UNDEFINED):
      sym, st = sim.op_details[0]
      try:
        m = _macro_cfg(sim)
      except OverflowError:
        break
      sc = sim.get_nonzeros()
      h = _halt_obs(sim.step_num if steps_known else -1, sc, st, sym,
                    1 if sim.op_state == Turing_Machine.UNDEFINED else 0, m)
      if not steps_known:
        h["k"] = "halt?"
        h["n"] = inf_bound
      final.append(h)
      break
    want = loop < 25 or is_rule or rng.random() < task["dens"]
    if want:
      try:
        m = _macro_cfg(sim)
      except OverflowError:
        if task.get("until_loops"):
          recording = False
          continue
        break
      nobs += 1
      new = []
      if steps_known:
        new.append({"k": "cfg", "n": int(sim.step_num), "m": m})
        if task["track"] and sim.states_last_seen is not None and (is_rule or nobs % 3 == 0):
          new.append({"k": "seen", "n": int(sim.step_num),
                      "w": [[int(q), int(n2)] for q, n2 in sim.states_last_seen.items()]})
      elif nobs < task["maxobs"] and (is_rule or nobs % 4 == 0):
        new.append({"k": "reach", "n": inf_bound, "m": m})
      # The first ones, and the last ones.
      if nobs <= task["maxobs"]:
        obs += new
      else:
        late.append(new)
        if len(late) > LATE:
          late.pop(0)
  for new in late + [final]:
    obs += new
  jumps = _jumps(sim, marks, task["jumps"], rng, task, last, kinds) if task.get("jumps") else []
  if again and again[1]:
    jumps.append(again)
  for name in ("num_rules", "num_meta_diff_rules", "num_linear_rules", "num_exponential_rules", "num_gen_rules", "num_collatz_rules"):
    kinds[name] = getattr(sim.prover, name, 0) if sim.prover else 0
  return {"obs": obs, "kinds": kinds, "jumps": jumps, "rules": sim.num_rule_moves, "chains": sim.num_chain_moves, "macros": sim.num_macro_moves}

"""Machine generators. Everything generated here is untrusted input: what a
machine really does is decided by TLC from the specification."""

import os
import random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L, R, HALT = 0, 1, -1
UNDEF = [-1, -1, -1]


def to_text(tt):
  rows = []
  for row in tt:
    cells = []
    for (w, d, q) in row:
      if w < 0:
        cells.append("---")
      else:
        cells.append("%d%s%s" % (w, "LR"[d], "Z" if q < 0 else chr(65 + q)))
    rows.append("".join(cells))
  return "_".join(rows)


def from_text(text):
  tt = []
  for row in text.strip().split("_"):
    r = []
    for j in range(0, len(row), 3):
      a, d, q = row[j:j+3]
      if a == "-":
        r.append(list(UNDEF))
      else:
        r.append([int(a), "LR".index(d), -1 if q in "ZH" and ord(q) - 65 >= row_count(text) else ord(q) - 65])
    tt.append(r)
  return tt


def row_count(text):
  return text.count("_") + 1


def random_tm(rng, S, Y, p_halt=0.1, p_undef=0.1, halt_any=False):
  tt = []
  for q in range(S):
    row = []
    for s in range(Y):
      x = rng.random()
      if (q, s) == (0, 0):
        row.append([rng.randrange(1, Y), R, min(1, S-1)] if rng.random() < .8 else
                   [rng.randrange(Y), rng.randrange(2), rng.randrange(S)])
      elif x < p_halt:
        row.append([rng.randrange(Y) if halt_any else 1, rng.randrange(2) if halt_any else R, HALT])
      elif x < p_halt + p_undef:
        row.append(list(UNDEF))
      else:
        row.append([rng.randrange(Y), rng.randrange(2), rng.randrange(S)])
    tt.append(row)
  return tt


def sim(tt, max_steps, max_cells=None):
  """Untrusted fast simulator used only to pick interesting inputs.
  Returns (halted, steps, cells)."""
  tape = {}
  p = q = n = 0
  while n < max_steps:
    w, d, q2 = tt[q][tape.get(p, 0)]
    n += 1
    if w < 0:
      return True, n, len(tape)
    tape[p] = w
    p += 1 if d else -1
    q = q2
    if q < 0:
      return True, n, len(tape)
  return False, n, len(tape)


def tnf_random(rng, S, Y, max_steps, p_stop=0.0):
  """Random walk down the TNF tree. Returns tt (with at most one or a few
  undefined cells left)."""
  tt = [[list(UNDEF) for _ in range(Y)] for _ in range(S)]
  maxq = 0
  maxs = 0
  left = S * Y
  tape = {}
  p = q = n = 0
  while n < max_steps:
    s = tape.get(p, 0)
    if tt[q][s][0] < 0:
      if left == 1 or rng.random() < p_stop:
        return tt
      q2 = rng.randrange(min(maxq + 1, S - 1) + 1)
      w2 = rng.randrange(min(maxs + 1, Y - 1) + 1)
      d2 = R if left == S * Y else rng.randrange(2)
      tt[q][s] = [w2, d2, q2]
      maxq = max(maxq, q2)
      maxs = max(maxs, w2)
      left -= 1
    w, d, q = tt[q][s]
    tape[p] = w
    p += 1 if d else -1
    n += 1
  return tt


def deep_node(rng, S, Y, undefined, max_steps=60):
  """A node of the tree (first transition 1RB) with that many undefined cells, or None."""
  tt = [[list(UNDEF) for _ in range(Y)] for _ in range(S)]
  tt[0][0] = [1, R, 1]
  maxq, maxs, left = 1, 1, S * Y - 1
  tape = {}
  p = q = n = 0
  while n < max_steps:
    s = tape.get(p, 0)
    if tt[q][s][0] < 0:
      if left == undefined:
        return tt
      best = [rng.randrange(min(maxs + 1, Y - 1) + 1), rng.randrange(2), rng.randrange(min(maxq + 1, S - 1) + 1)]
      if rng.random() < .5:     # towards new states and symbols
        best[rng.choice([0, 2])] = -1
      if best[0] < 0:
        best[0] = min(maxs + 1, Y - 1)
      if best[2] < 0:
        best[2] = min(maxq + 1, S - 1)
      tt[q][s] = best
      maxq, maxs = max(maxq, best[2]), max(maxs, best[0])
      left -= 1
    w, d, q = tt[q][s]
    tape[p] = w
    p += 1 if d else -1
    n += 1
  return tt if left == undefined else None


def deep_nodes(rng, S, Y, undefined, count):
  out = {}
  for _ in range(400 * count):
    tt = deep_node(rng, S, Y, undefined)
    if tt:
      out[to_text(tt)] = tt
    if len(out) == count:
      break
  return list(out.values())


def mutate(rng, tt, k=1):
  S, Y = len(tt), len(tt[0])
  tt = [[list(c) for c in row] for row in tt]
  for _ in range(k):
    q, s = rng.randrange(S), rng.randrange(Y)
    c = tt[q][s]
    j = rng.randrange(4)
    if j == 3 or c[0] < 0:
      tt[q][s] = [rng.randrange(Y), rng.randrange(2), rng.randrange(-1, S)]
    elif j == 0:
      c[0] = rng.randrange(Y)
    elif j == 1:
      c[1] ^= 1
    else:
      c[2] = rng.randrange(S)
  return tt


def corpus(name):
  """Lines "TM steps"? of a committed corpus file."""
  out = []
  path = os.path.join(VERIF, "corpus", name + ".txt")
  for line in open(path):
    line = line.split("#")[0].split()
    if line:
      out.append((from_text(line[0]), int(line[1]) if len(line) > 1 else None))
  return out


def rules_corpus(name="rules"):
  """(tt, block, back, recursive, limited) of machines whose simulation applies many proven rules."""
  out = []
  for line in open(os.path.join(VERIF, "corpus", name + ".txt")):
    w = line.split()
    if w:
      out.append((from_text(w[0]), int(w[1]), w[2] == "1", w[3] == "1", w[4] == "1"))
  return out


def lr_hint(tt, limit):
  """Untrusted search for a translated cycle: (start, period) or None."""
  tape = {}
  p = q = n = 0
  def step():
    nonlocal p, q, n
    w, d, q2 = tt[q][tape.get(p, 0)]
    n += 1
    if w < 0:
      return False
    tape[p] = w
    p += 1 if d else -1
    q = q2
    return q >= 0
  init = 1
  if not step():
    return None
  while n < limit:
    init = n
    ref, rp, rq = dict(tape), p, q
    lo = hi = p
    while n < 2 * init:
      if not step():
        return None
      lo, hi = min(lo, p), max(hi, p)
      if q == rq:
        o = p - rp
        keys = [k for k in ref] + [k - o for k in tape]
        a, b = min(keys + [lo]), max(keys + [hi])
        if o > 0:
          a = lo
        elif o < 0:
          b = hi
        else:
          a, b = lo, hi
        if all(ref.get(x, 0) == tape.get(x + o, 0) for x in range(a, b + 1)):
          return [init, n - init]
  return None


def setup_machine(rng, core, word, back):
  """A machine that writes `word` rightwards, walks `back` cells back left and then behaves like
  `core` (whose states follow the set-up states)."""
  Y = len(core[0])
  n = len(word) + back
  tt = []
  for j, x in enumerate(word):
    tt.append([[x, R, j + 1] for _ in range(Y)])
  for j in range(back):
    tt.append([[s, L, len(word) + j + 1] for s in range(Y)])
  for row in core:
    tt.append([[w, d, q + n if q >= 0 else q] if w >= 0 else [w, d, q] for w, d, q in row])
  return tt


def random_core(rng, S, Y, halts=1):
  tt = [[[rng.randrange(Y), rng.randrange(2), rng.randrange(S)] for _ in range(Y)] for _ in range(S)]
  for _ in range(halts):
    tt[rng.randrange(S)][rng.randrange(Y)] = list(UNDEF) if rng.random() < .5 else [1, R, HALT]
  return tt


def random_word(rng, Y, m):
  """A word of at most m symbols made of runs (as deciders see them)."""
  w = []
  while len(w) < m:
    w += [rng.randrange(Y)] * rng.choice([1, 1, 2, 3, 4])
    if rng.random() < .25:
      break
  return w[:m]


def flip(tt):
  return [[[w, 1 - d, q] if w >= 0 else [w, d, q] for w, d, q in row] for row in tt]


def scanner_core(rng, S, Y, p_turn):
  """A core that mostly keeps its direction (a finite automaton reading the tape), halting in one cell."""
  tt = []
  for q in range(S):
    row = []
    for s in range(Y):
      d = 0 if rng.random() < p_turn else 1
      row.append([s if rng.random() < .5 else rng.randrange(Y), d, rng.randrange(S)])
    tt.append(row)
  if rng.random() < .7:
    for q in range(S):
      tt[q][0][2] = q   # blanks do not change what was read
  tt[rng.randrange(S)][rng.randrange(1, Y)] = list(UNDEF) if rng.random() < .5 else [1, R, HALT]
  return tt


def prepared_halting(rng, max_steps=500, min_run=3):
  """A machine that halts (untrusted) at least `min_run` steps after setting up a random tape.
  Returns (tt, steps)."""
  while True:
    scan = rng.random() < .6
    if scan:
      S, Y = rng.choice([(2, 3), (3, 3), (3, 2), (4, 2), (4, 3), (3, 4), (2, 4)])
      core = scanner_core(rng, S, Y, rng.choice([0, 0, .1, .2]))
    else:
      S, Y = rng.choice([(1, 2), (1, 3), (2, 2), (2, 2), (2, 3), (2, 3), (2, 4), (3, 2), (3, 2), (3, 3), (1, 4), (4, 2), (2, 5)])
      core = random_core(rng, S, Y)
    for _ in range(4):
      word = random_word(rng, Y, rng.choice([4, 8, 11]))
      back = rng.choice([0, 1, len(word), len(word), rng.randrange(len(word) + 1)])
      back = min(back, 24 - S - len(word))
      if back < 0:
        continue
      tt = setup_machine(rng, core, word, back)
      ok, n, _ = sim(tt, max_steps)
      if ok and n >= len(word) + back + min_run:
        return (flip(tt) if rng.random() < .5 else tt), n

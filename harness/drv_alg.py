"""Computes with the real symbolic algebra; every result comes with the expression tree it should equal."""
import random
from fractions import Fraction
from itertools import product

import Algebraic_Expression as ae
import Exp_Int
from Exp_Int import ExpIntException, exp_int
from Macro import Proof_System, Rule_Func

PRIMES = (46337, 46327, 45989)
NV = 3


def residues(x):
  x = Exp_Int.try_simplify(x) if not isinstance(x, (int, Fraction)) else x
  if ae.is_expr(x):
    x = ae.as_const(x)
  f = Fraction(x)
  return [f.numerator * pow(f.denominator, -1, p) % p for p in PRIMES]


def C(x):
  f = Fraction(x)
  return ["c", f.numerator, f.denominator]


def V(i):
  return ["v", i + 1]


def points(rng, deg, nvars, lo=0, big=True):
  """Points that tell polynomials apart: a full grid if that is small, random ones otherwise."""
  if (deg + 1) ** nvars <= 40:
    pts = [list(p) + [0] * (NV - nvars) for p in product(range(lo, lo + deg + 1), repeat=nvars)]
  else:
    pts = [[rng.randrange(lo, lo + 8) for _ in range(NV)] for _ in range(6)]
  if big:
    pts += [[rng.choice([rng.randrange(0, 30), rng.randrange(-40, 40), rng.randrange(-10**6, 10**6)]) for _ in range(NV)]
            for _ in range(5)]
  return pts


class Gen:
  def __init__(self, rng, fracs=True):
    self.rng = rng
    self.fracs = fracs
    self.vars = [ae.Variable() for _ in range(NV)]
    self.x = [ae.VariableToExpression(v) for v in self.vars]

  def const(self):
    return self.rng.choice([0, 1, -1, 2, 3, self.rng.randrange(-9, 10), self.rng.randrange(-5000, 5000)])

  def leaf(self):
    i = self.rng.randrange(NV)
    if self.rng.random() < .3:
      k = self.const()
      return ["+", V(i), C(k)], ae.VarPlusConstExpression(self.vars[i], k)
    return V(i), self.x[i]

  def expr(self, n):
    """(tree, value, degree bound) using n operations."""
    t, v = self.leaf()
    deg = 1
    for _ in range(n):
      t, v, deg = self.step(t, v, deg, n)
    return t, v, deg

  def step(self, t, v, deg, n):
    r = self.rng
    x = r.random()
    if x < .12:
      k = self.const()
      return ((["+", t, C(k)], v + k) if r.random() < .5 else (["+", C(k), t], k + v)) + (deg,)
    if x < .24:
      k = self.const()
      return ((["-", t, C(k)], v - k) if r.random() < .5 else (["-", C(k), t], k - v)) + (deg,)
    if x < .36:
      k = self.const()
      return ((["*", t, C(k)], v * k) if r.random() < .5 else (["*", C(k), t], k * v)) + (deg,)
    if x < .42:
      return ["n", t], -v, deg
    if x < .50 and deg <= 3:
      k = r.randrange(0, 4 if deg < 3 else 3)
      return ["^", t, k], v ** k, deg * max(k, 1)
    if x < .56 and self.fracs:
      d = r.choice([1, 2, 3, 6, -2])
      if ae.is_expr(v):
        return ["/", t, d], v / d, deg
      return ["/", t, d], ae.div(v, d), deg
    if x < .66 and ae.is_expr(v) and deg <= 3:
      return self.subst(t, v, deg)
    t2, v2, d2 = self.expr(r.randrange(0, max(1, n // 2)))
    x = r.random()
    if x < .35:
      return ["+", t, t2], v + v2, max(deg, d2)
    if x < .6:
      return ["-", t, t2], v - v2, max(deg, d2)
    if deg + d2 <= 6:
      return ["*", t, t2], v * v2, deg + d2
    return ["+", t2, t], v2 + v, max(deg, d2)

  def subst(self, t, v, deg):
    r = self.rng
    subs = {}
    ts = [V(i) for i in range(NV)]
    dmax = 1
    for i in range(NV):
      x = r.random()
      if x < .3:
        k = r.choice([self.const(), 0, 1])
        subs[self.vars[i]] = k
        ts[i] = C(k)
      elif x < .65:
        t2, v2, d2 = self.expr(r.randrange(0, 2))
        if deg * d2 > 6:
          continue
        subs[self.vars[i]] = v2
        ts[i] = t2
        dmax = max(dmax, d2)
    return ["sub", t, ts], ae.substitute(v, subs), deg * dmax

  def at(self, v, pt):
    # Partial substitution first, sometimes.
    assign = {self.vars[i]: pt[i] for i in range(NV)}
    if self.rng.random() < .3 and ae.is_expr(v):
      k = self.rng.randrange(NV)
      v = ae.substitute(v, {self.vars[k]: pt[k]})
    return residues(ae.substitute(v, assign))


def algebra(task):
  rng = random.Random(task["seed"])
  out = []
  while len(out) < task["n"]:
    g = Gen(rng, fracs=rng.random() < .6)
    n = rng.randrange(1, 8)
    t, v, deg = g.expr(n)
    pts = points(rng, deg, NV)
    out.append({"k": "val", "e": t, "pts": pts, "v": [g.at(v, p) for p in pts]})
    if not ae.is_expr(v):
      continue
    # What the code can say about the form of the expression.
    try:
      var = v.variable_restricted()
      out.append({"k": "restr", "e": t, "var": g.vars.index(var) + 1, "pts": pts})
    except ae.BadOperation:
      pass
    lin = v.as_strictly_linear()
    if lin and all(isinstance(x, (int, Fraction)) and Fraction(x).denominator < 10**4 and abs(Fraction(x).numerator) < 10**9 for x in lin[1:]):
      f1, f2 = Fraction(lin[1]), Fraction(lin[2])
      out.append({"k": "linear", "e": t, "var": g.vars.index(lin[0]) + 1, "pts": pts,
                  "slope": [f1.numerator, f1.denominator], "const": [f2.numerator, f2.denominator]})
    if not g.fracs and len(str(v)) < 300:
      w = ae.Expression_from_string(str(v))
      names = {x.id: x for x in g.vars}
      w2 = ae.substitute(w, {ae.Variable(x.id): ae.VariableToExpression(names[x.id]) for x in g.vars})
      out.append({"k": "val", "e": t, "pts": pts, "v": [g.at(w2, p) for p in pts]})
  return out, 0


def small(task):
  """Equality, lower bounds and order of small expressions."""
  rng = random.Random(task["seed"])
  out = []
  for _ in range(task["n"]):
    g = Gen(rng, fracs=rng.random() < .3)
    g.const = lambda: rng.randrange(-3, 4)
    t, v, deg = g.expr(rng.randrange(1, 4))
    if deg > 3 or len(str(t)) > 300:
      continue
    grid = [list(p) for p in product(range(deg + 1), repeat=NV)]
    x = rng.random()
    if x < .4:
      t2, v2, d2 = g.expr(rng.randrange(1, 4))
    elif x < .7:
      k = rng.choice([0, 0, 1, -1])
      t2, v2, d2 = ["-", ["+", ["+", t, V(0)], C(k)], V(0)], v + g.x[0] + k - g.x[0], deg
    else:
      i = rng.randrange(NV)
      k = rng.choice([-1, 0, 1, 2])
      t2, v2, d2 = ["-", t, ["*", C(k), V(i)]], v - k * g.x[i] - rng.choice([0, 1]) * 0, deg
    if d2 <= 3 and len(str(t2)) < 400 and (ae.is_expr(v) or ae.is_expr(v2)):
      d = max(deg, d2)
      gr = [list(p) for p in product(range(d + 1), repeat=NV)]
      ans = (v == v2) if rng.random() < .5 else not (v != v2)
      out.append({"k": "eq", "e": t, "f": t2, "pts": gr, "ans": 1 if ans else 0})
      out.append({"k": "ge", "e": t, "f": t2, "pts": gr, "ans": 1 if ae.always_ge(v, v2) else 0})
      out.append({"k": "gt", "e": t, "f": t2, "pts": gr, "ans": 1 if ae.always_gt(v, v2) else 0})
    m = ae.min_val(v)
    fin = abs(m) != float("inf")
    f = Fraction(m) if fin else Fraction(0)
    out.append({"k": "min", "e": t, "pts": grid, "fin": 1 if fin else 0, "m": [f.numerator, f.denominator]})
  return out, 0


def series(task):
  rng = random.Random(task["seed"])
  out = []
  declined = 0
  for _ in range(task["n"]):
    g = Gen(rng, fracs=False)
    # a polynomial in k = variable 0 (and others), maybe integer-valued with fractional coefficients
    x = rng.random()
    if x < .35:
      t, v, deg = g.expr(rng.randrange(1, 5))
    else:
      t, v = C(rng.randrange(-5, 20)), rng.randrange(-5, 20)
      t = C(v)
      for _ in range(rng.randrange(1, 4)):
        kp = rng.choice([0, 1, 1, 2, 2, 3])
        c = rng.choice([1, 1, 2, 3, rng.randrange(-6, 30)])
        d = rng.choice([1, 1, 2, 3, 4, 6])
        tt, vv = ["*", C(c), ["^", V(0), kp]], c * g.x[0] ** kp
        if rng.random() < .4:
          i = rng.randrange(1, NV)
          tt, vv = ["*", tt, V(i)], vv * g.x[i]
        if d != 1 and ae.is_expr(vv):
          tt, vv = ["/", tt, d], vv / d
        t, v = ["+", t, tt], v + vv
    if isinstance(v, Fraction):
      continue
    sym = rng.random() < .4
    if not sym:
      N = rng.choice([0, 1, 2, 3, rng.randrange(4, 30)])
      tn = C(N)
    else:
      i = rng.randrange(1, NV)
      k = rng.choice([0, 0, 1, 2, 5])
      tn, N = ["+", V(i), C(k)], g.x[i] + k
    try:
      s = Proof_System.series_sum(v, g.vars[0], N)
    except NotImplementedError:
      declined += 1
      continue
    pts = [[rng.randrange(0, 9) for _ in range(NV)] for _ in range(8)]
    out.append({"k": "val", "e": ["sum", 1, tn, t], "pts": pts, "v": [g.at(s, p) for p in pts]})
  return out, declined


def integral(x):
  return Fraction(x).denominator == 1


def rules(task):
  """The functions by which rules are applied many times at once."""
  rng = random.Random(task["seed"])
  out = []
  declined = 0
  for _ in range(task["n"]):
    g = Gen(rng)
    var = g.vars[0]
    mn = rng.randrange(0, 9)
    c = rng.choice([1, 1, 2, 3, 5, rng.randrange(1, 40)])
    f = Rule_Func.Subtract_Func(var, mn, c)
    x = mn + rng.choice([0, 1, c - 1, c, c + 1, rng.randrange(0, 300)])
    n, rest = f.max_reps(x)
    out.append({"k": "take", "x": x, "min": mn, "c": c, "n": n, "rest": rest})
    n = rng.choice([0, 1, 2, rng.randrange(0, 20)])
    fs = [("sub", f, ["-", V(0), C(c)])]
    f = Rule_Func.Add_Func(var, mn, c)
    fs.append(("add", f, ["+", V(0), C(c)]))
    m = rng.choice([2, 2, 3, 4, 5, 7])
    b = rng.choice([0, 1, -1, 2, rng.randrange(-20, 20)])
    f = Rule_Func.Mult_Func(var, mn, m, b)
    fs.append(("mult", f, ["+", ["*", C(m), V(0)], C(b)]))
    out.append({"k": "grow", "a": 0, "m": m, "w": b, "min": f.min, "b": 2, "u": 0, "vv": 0, "d": 1})
    if f.min < mn:
      raise AssertionError("minimum lowered from %d to %d" % (mn, f.min))
    for name, f, body in fs:
      pts, vals = [], []
      for _ in range(3):
        pt = [rng.randrange(0, 50), rng.randrange(0, 12), rng.randrange(0, 12)]
        # start is a number or a symbol, so is the number of repetitions
        y = rng.random()
        try:
          if y < .4 or n == 0 and name == "mult":
            k = max(1, pt[1])
            v = f.apply_rep(pt[0], k)
            pt[1] = k
          elif y < .7:
            pt[1] = max(1, pt[1])
            v = ae.substitute(f.apply_rep(g.x[0], pt[1]), {g.vars[0]: pt[0]})
          elif name != "mult":
            pt[1] = max(1, pt[1])
            v = ae.substitute(f.apply_rep(g.x[0] + 0, g.x[1] + 0), {g.vars[0]: pt[0], g.vars[1]: pt[1]})
          else:
            v = ae.substitute(f.apply_rep(pt[0], g.x[1] + g.x[2]), {g.vars[1]: pt[1], g.vars[2]: pt[2]})
            pt[1] += pt[2]
        except (ExpIntException, NotImplementedError):
          declined += 1
          continue
        vals.append(residues(v))
        pts.append(pt)
      if pts:
        out.append({"k": "val", "e": ["rep", 1, V(1), body], "pts": pts, "v": vals})
    # x -> (a b^(u x + v) + w)/d
    b = rng.choice([2, 2, 3])
    a, u = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2])
    d = rng.choice([1, 1, 1, 2, 3])
    vv = rng.choice([0, 0, 1, 2, -1, -3, -8])
    w = rng.choice([0, 0, 1, -1, 5, rng.randrange(-40, 40)])
    mn2 = max(mn, -(vv // u) if vv < 0 else 0)
    f = Rule_Func.Pow_Func(var, mn2, b, a, w, d, u, vv)
    if f.min < mn2:
      raise AssertionError("minimum lowered from %d to %d" % (mn2, f.min))
    ok = all(x < 60 and (a * b ** (u * x + vv) + w) % d == 0 for x in range(f.min, f.min + 14)) if f.min < 100 else False
    if ok:
      out.append({"k": "grow", "a": a, "m": 0, "w": w, "min": f.min, "b": b, "u": u, "vv": vv, "d": d})
      pts = [[x, 0, 0] for x in range(f.min, min(f.min + 6, 40))]
      out.append({"k": "val", "e": ["/", ["+", ["*", C(a), ["p", b, ["+", ["*", C(u), V(0)], C(vv)]]], C(w)], d],
                  "pts": pts, "v": [residues(ae.substitute(f.expr, {var: p[0]})) for p in pts]})
  return out, declined


def symexp(task):
  """Powers with symbolic exponents."""
  rng = random.Random(task["seed"])
  out = []
  declined = 0
  for _ in range(task["n"]):
    g = Gen(rng)
    b = rng.choice([2, 2, 3, 5, 7])

    def power(shift=0):
      if rng.random() < .15:
        k = rng.randrange(0, 6)
        return ["p", b, C(k)], exp_int(b, k)
      i = rng.randrange(NV)
      u, k = rng.choice([1, 1, 2]), rng.randrange(0, 3)
      te, ve = ["+", ["*", C(u), V(i)], C(k)], u * g.x[i] + k
      if rng.random() < .25:
        j = rng.randrange(NV)
        te, ve = ["+", te, V(j)], ve + g.x[j]
      return ["p", b, te], exp_int(b, ve)

    try:
      t, v = power()
      for _ in range(rng.randrange(0, 4)):
        x = rng.random()
        if x < .3:
          k = rng.randrange(-20, 20)
          t, v = ["+", t, C(k)], v + k
        elif x < .45:
          k = rng.choice([-1, 2, 3, b, 5])
          t, v = ["*", t, C(k)], v * k
        elif x < .5:
          t, v = ["n", t], -v
        elif x < .8:
          t2, v2 = power()
          t, v = (["+", t, t2], v + v2) if rng.random() < .6 else (["-", t, t2], v - v2)
        elif len(str(t)) < 80:
          t2, v2 = power()
          t, v = ["*", t, t2], v * v2
      if rng.random() < .3 and not isinstance(v, int):
        d = rng.choice([2, 3, 4, 6])
        t, v = ["*", ["/", t, d], C(d)], (v / d) * d
      if rng.random() < .3 and not isinstance(v, int) and not v.is_const:
        d = b - 1
        if d > 1 and rng.random() < .5:
          t, v = ["/", ["*", t, C(d)], d], (v * d) / d
      pts = [[rng.randrange(0, 5) for _ in range(NV)] for _ in range(6)] + [[0] * NV]
      vals = [g.at(v, p) if not isinstance(v, int) else residues(v) for p in pts]
    except ExpIntException:
      declined += 1
      continue
    out.append({"k": "val", "e": t, "pts": pts, "v": vals})
    if not isinstance(v, int) and not v.is_const and len(str(t)) < 120 and b < 4:
      m = ae.min_val(v)
      if isinstance(m, float) and abs(m) == float("inf"):
        continue
      m = Exp_Int.try_simplify(m)
      f = Fraction(m)
      grid = [list(p) for p in product(range(2), repeat=NV)]
      out.append({"k": "low", "e": t, "pts": grid, "fin": 1, "m": [f.numerator, f.denominator]})
  return out, declined

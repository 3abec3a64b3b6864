"""Computes with the real big numbers; every result comes with the expression it should equal."""
import ast
import random
import re

import Exp_Int
import Halting_Lib
import Math
import io_pb2
from Exp_Int import ExpInt, ExpIntException, exp_int, sign, try_eval, try_simplify

DECLINED = (ExpIntException, NotImplementedError)


def T(n):
  s = (n > 0) - (n < 0)
  n = abs(n)
  limbs = []
  while n:
    limbs.append(n % 10000)
    n //= 10000
  return ["i", s, limbs]


def divided(t, d):
  """t / d for any d (the specification divides by small numbers)."""
  while abs(d) >= 200000:
    for p in range(199999, 1, -1):
      if d % p == 0:
        break
    else:
      break
    t, d = ["/", t, p], d // p
  if abs(d) >= 2**31:
    raise ValueError("cannot express a division by %d" % d)
  return ["/", t, d] if d != 1 else t


def formula(text):
  """The expression a printed formula denotes."""
  node = ast.parse(text.replace("^", "**").strip(), mode="eval").body

  def go(n):
    if isinstance(n, ast.Constant):
      return T(n.value)
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      return ["n", go(n.operand)]
    if isinstance(n, ast.BinOp):
      if isinstance(n.op, ast.Add):
        return ["+", go(n.left), go(n.right)]
      if isinstance(n.op, ast.Sub):
        return ["-", go(n.left), go(n.right)]
      if isinstance(n.op, ast.Mult):
        return ["*", go(n.left), go(n.right)]
      if isinstance(n.op, ast.Div):
        return divided(go(n.left), ast.literal_eval(n.right))
      if isinstance(n.op, ast.Pow):
        return ["^", ast.literal_eval(n.left), go(n.right)]
    raise ValueError("unexpected formula %r" % text)
  return go(node)


def of(x):
  if isinstance(x, int):
    return T(x)
  if isinstance(x, ExpInt):
    return formula(str(x))
  raise TypeError("result of type %s" % type(x))


class Gen:
  def __init__(self, rng, base):
    self.rng = rng
    self.base = base

  def small(self):
    r = self.rng
    return r.choice([r.randrange(-12, 13), r.randrange(1, 5), r.choice([1, -1]) * r.randrange(1, 3000),
                     self.base ** r.randrange(1, 6), r.choice([-1, 1]) * r.getrandbits(r.randrange(1, 70))])

  def power(self, depth, root=None):
    """(tree, value) of base^something."""
    r = self.rng
    b = self.base if root is None else root
    if root is None and r.random() < .15:
      b = b ** 2        # the code normalises this base
    x = r.random()
    if depth and x < .45:
      for _ in range(20):
        t, v = self.number(depth - 1, ops=r.randrange(0, 3))
        if not isinstance(v, ExpInt) or v.sign > 0:
          if isinstance(v, int) and not 0 <= v < 10**6:
            continue
          return ["^", b, t], exp_int(b, v)
    n = (r.randrange(0, 9) if x < .55 else r.randrange(9, 60) if x < .75 else r.randrange(60, 400) if x < .85
         else r.randrange(400, 3000) if x < .93 else r.randrange(3000, 150000))
    return ["^", b, T(n)], exp_int(b, n)

  def number(self, depth, ops=None):
    r = self.rng
    t, v = self.power(depth)
    for _ in range(r.randrange(0, 6) if ops is None else ops):
      t, v = self.step(depth, t, v)
    return t, v

  def step(self, depth, t, v):
    r = self.rng
    x = r.random()
    if x < .14:
      k = self.small()
      return (["+", t, T(k)], v + k) if r.random() < .5 else (["+", T(k), t], k + v)
    if x < .26:
      k = self.small()
      return (["-", t, T(k)], v - k) if r.random() < .5 else (["-", T(k), t], k - v)
    if x < .40:
      k = self.small()
      return (["*", t, T(k)], v * k) if r.random() < .5 else (["*", T(k), t], k * v)
    if x < .45:
      return ["n", t], -v
    if x < .80:
      t2, v2 = self.power(depth) if r.random() < .6 else self.number(max(depth - 1, 0), r.randrange(0, 3))
      op = r.choice("++--*")
      if op == "*" and r.random() < .5:
        op = "+"
      if op == "+":
        return ["+", t, t2], v + v2
      if op == "-":
        return ["-", t, t2], v - v2
      return ["*", t, t2], v * v2
    # exact division
    d = r.choice([2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12])
    if isinstance(v, int):
      k = v % d
      if r.random() < .3:
        return ["/", ["-", t, T(k)], d], (v - k) // d
      return ["-", t, T(k)], v - k
    k = v % d
    if r.random() < .2:
      d2 = -d
      return ["/", ["-", t, T(k)], d2], (v - k) / d2
    if r.random() < .3:
      return ["/", ["-", t, T(k)], d], v // d
    return ["/", ["-", t, T(k)], d], (v - k) / d


def siblings(g):
  """Sums of powers whose exponents differ in one place only (a divisor, a factor, a constant)."""
  r = g.rng
  a = r.choice([r.randrange(400, 900), r.randrange(3, 40)])
  t, v = ["^", g.base, T(a)], exp_int(g.base, a)
  if r.random() < .3:
    t, v = ["^", g.base, t], exp_int(g.base, v)
  k = r.choice([1, 1, 5, 7])
  t, v = ["*", T(k), t], k * v
  c = r.choice([12, 12, 60])
  rem = v % c
  t, v = ["-", t, T(rem)], v - rem
  kinds = []
  for d in (1, 2, 3, 4, 6, 12):
    kinds.append((["/", t, d], v / d if isinstance(v, ExpInt) else v // d) if d > 1 else (t, v))
    kinds.append((["+", kinds[-1][0], T(c)], kinds[-1][1] + c))
  kinds.append((["*", T(7), t], 7 * v))
  tt, vv = T(0), 0
  for _ in range(r.choice([2, 2, 3, 4])):
    te, ve = r.choice(kinds)
    m = r.choice([1, 1, 1, -1, 2, -3, 5])
    e = r.choice([0, 0, 1, 2])
    tt = ["+", tt, ["*", T(m), ["^", g.base, ["+", te, T(e)]]]]
    vv = vv + m * exp_int(g.base, ve + e)
  return tt, vv


def near(g):
  """Sums of terms of about the same size, none of which decides the sign alone."""
  r = g.rng
  n = r.choice([r.randrange(20, 60), r.randrange(900, 1100), r.randrange(400, 3000), r.randrange(3000, 100000)])
  tt, vv = T(0), 0
  for _ in range(r.choice([2, 3, 3, 4, 5])):
    m = r.choice([1, -1]) * r.choice([1, 2, 3, 5, 7, 9, 11, 31])
    e = n + r.choice([0, 1, 2, 3, 4, r.randrange(-20, 20)])
    tt = ["+", tt, ["*", T(m), ["^", g.base, T(e)]]]
    vv = vv + m * exp_int(g.base, e)
  if r.random() < .3:
    c = g.small()
    tt, vv = ["+", tt, T(c)], vv + c
  return tt, vv


def three(f):
  try:
    return 1 if f() else 0
  except DECLINED:
    return -1


def numbers(task):
  rng = random.Random(task["seed"])
  out = []
  declined = 0
  while len(out) < task["n"]:
    base = rng.choice([2, 2, 3, 3, 5, 6, 7, 10])
    g = Gen(rng, base)
    try:
      t, v = g.number(rng.choice([0, 0, 1, 1, 2, 3])) if rng.random() < .85 else siblings(g) if rng.random() < .5 else near(g)
    except DECLINED:
      declined += 1
      continue
    if len(str(v)) > 1500:
      continue
    out.append({"k": "eq", "e": t, "f": of(v), "what": "value"})
    x = rng.random()
    y = try_eval(v)
    if y is not None:
      out.append({"k": "eq", "e": t, "f": T(y), "what": "try_eval"})
    y = try_simplify(v)
    out.append({"k": "eq", "e": t, "f": of(y), "what": "try_simplify"})
    for _ in range(2):
      m = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 25, 27, 32, 49, 64, 81, 96, 97, 100, 144, 200, rng.randrange(1, 97)])
      try:
        if isinstance(v, ExpInt):
          out.append({"k": "mod", "e": t, "m": m, "f": of(v % m), "what": "mod %d" % m})
          if rng.random() < .4:
            q, r = divmod(v, m)
            out.append({"k": "mod", "e": t, "m": m, "f": of(r), "what": "divmod %d" % m})
            out.append({"k": "eq", "e": ["-", t, of(r)], "f": ["*", of(q), T(m)], "what": "divmod %d" % m})
      except DECLINED:
        declined += 1
    if isinstance(v, (int, ExpInt)):
      f = io_pb2.BigInt()
      Halting_Lib.set_big_int(f, v)
      f2 = io_pb2.BigInt()
      f2.ParseFromString(f.SerializeToString())
      out.append({"k": "eq", "e": t, "f": of(Halting_Lib.get_big_int(f2)), "what": "big int field"})
      if isinstance(v, ExpInt) and max([abs(c) for c in (v.denom,)]) < 2**60:
        f = io_pb2.BigInt()
        Halting_Lib.serialize_exp_int(v, f.exp_int)
        f2 = io_pb2.BigInt()
        f2.ParseFromString(f.SerializeToString())
        out.append({"k": "eq", "e": t, "f": of(Halting_Lib.get_big_int(f2)), "what": "serialised"})
      try:
        if sign(v) < 0:     # meant for scores and step counts
          continue
        s = Halting_Lib.big_int_approx_str(v)
        if re.fullmatch(r"-?[0-9_]+", s):
          out.append({"k": "eq", "e": t, "f": T(int(s)), "what": "printed"})
        elif re.fullmatch(r"~10\^[0-9_]+\.[0-9]+", s):
          e10 = float(s[4:].replace("_", ""))
          if e10 < 10**6:
            out.append({"k": "log", "e": t, "v": int(e10 * 1000), "what": "printed " + s})
        s = Halting_Lib.big_int_approx_and_full_str(v)
        if "  =  " in s:
          full = s.split("  =  ")[1]
          out.append({"k": "eq", "e": t, "f": T(int(full)) if re.fullmatch(r"-?[0-9_]+", full) else formula(full), "what": "printed in full"})
      except DECLINED:
        declined += 1
    if isinstance(v, ExpInt) and rng.random() < .5:
      out.append({"k": "cmp", "e": t, "f": T(0), "lt": three(lambda: v < 0), "le": three(lambda: v <= 0), "gt": three(lambda: v > 0),
                  "ge": three(lambda: v >= 0), "sign": sign(v), "exact": 1, "what": "sign"})
    for _ in range(3):
      compare(g, rng, t, v, out)
  return out, declined


def compare(g, rng, t, v, out):
  """Comparison with another number, often a close one."""
  try:
    x = rng.random()
    if x < .25:
      k = rng.choice([-2, -1, 0, 1, 2, 1000])
      t2, v2 = ["+", t, T(k)], v + k
      if k == 0 or x < .06:
        k = g.small()
        t2, v2 = t, (v + k) - k
        if rng.random() < .5:
          t, v, t2, v2 = ["n", t], -v, ["n", t], -v2
    elif x < .35:
      k = rng.choice([2, 3, 10, 1000])
      t2, v2 = ["*", t, T(k)], v * k
    elif x < .55:
      k = rng.choice([0, 1, -1, 10**6, -10**6, 10**999, -10**999, 10**320, -10**30, 7**7, 7**900, 2**1100])
      t2, v2 = T(k), k
    elif x < .6:
      t2, v2 = ["n", t], -v
    else:
      g2 = g if rng.random() < .6 else Gen(rng, rng.choice([2, 3, 7, 10]))
      t2, v2 = g2.number(rng.choice([0, 1, 2]), rng.randrange(0, 3))
  except DECLINED:
    return
  if isinstance(v, int) and isinstance(v2, int):
    return
  if len(str(v2)) > 1500:
    return
  if rng.random() < .3:
    t, v, t2, v2 = t2, v2, t, v
  c = {"k": "cmp", "e": t, "f": t2, "lt": three(lambda: v < v2), "le": three(lambda: v <= v2),
       "gt": three(lambda: v > v2), "ge": three(lambda: v >= v2), "sign": 9, "what": "comparison",
       "exact": 1 if try_eval(v) is not None and try_eval(v2) is not None else 0}
  try:
    if isinstance(v, int) or isinstance(v2, int) or v.base == v2.base:
      c["sign"] = sign(v - v2)
  except DECLINED:
    pass
  out.append(c)


def fixed(task):
  """5 2^1002 - 7 2^1001 - 7 2^1000, whose sign the code gets from its largest terms."""
  t = ["-", ["-", ["*", T(5), ["^", 2, T(1002)]], ["*", T(7), ["^", 2, T(1001)]]], ["*", T(7), ["^", 2, T(1000)]]]
  v = 5 * exp_int(2, 1002) - 7 * exp_int(2, 1001) - 7 * exp_int(2, 1000)
  return [{"k": "cmp", "e": t, "f": T(0), "lt": three(lambda: v < 0), "le": three(lambda: v <= 0),
           "gt": three(lambda: v > 0), "ge": three(lambda: v >= 0), "sign": sign(v), "exact": 1,
           "what": "5*2^1002 - 7*2^1001 - 7*2^1000"}], 0


def helpers(task):
  rng = random.Random(task["seed"])
  out = []
  for _ in range(task["n"]):
    a, b = rng.randrange(-5000, 5000), rng.randrange(-5000, 5000)
    if rng.random() < .3:
      b = a * rng.randrange(5)
    out.append({"k": "gcd", "a": a, "b": b, "r": Math.gcd(a, b)})
    a, b = rng.randrange(1, 3000), rng.randrange(1, 3000)
    out.append({"k": "lcm", "a": a, "b": b, "r": Math.lcm(a, b)})
    n = rng.randrange(2, 50) ** rng.randrange(1, 4) if rng.random() < .6 else rng.randrange(2, 5000)
    m, k = Math.int_pow(n)
    out.append({"k": "intpow", "a": n, "b": k, "r": m})
    n = rng.randrange(1, 130)
    try:
      lam, k0 = Math.carmichael(n)
      out.append({"k": "carmichael", "a": n, "b": k0, "r": lam})
    except NotImplementedError:
      pass
    b, k, m = rng.randrange(2, 40), rng.randrange(0, 100000), rng.randrange(1, 200)
    if rng.random() < .5:
      k = rng.randrange(0, 12)
    try:
      out.append({"k": "mod", "e": ["^", b, T(k)], "m": m, "f": T(Math.exp_mod(b, k, m)), "what": "exp_mod(%d, %d, %d)" % (b, k, m)})
    except NotImplementedError:
      pass
  return out, 0

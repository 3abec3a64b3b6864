#!/usr/bin/env python3
"""Sensitivity survey: mutate one file of a scratch copy of the repository and run a check on it.

  mutants.py <file relative to /repo> <property>[,<property>] [-n COUNT] [-s SEED] [-f func[,func]]

Prints killed / survived per mutant with its diff line.  Not part of any check."""
import argparse, ast, json, copy, os, random, shutil, subprocess, sys, tempfile, time


V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_REPO", "/repo")


def tests_fail(tmp):
  t = open("/opt/vp/test.sh").read().replace("/repo", tmp + "/repo").replace("/tmp/test_Enumerate", tmp + "/tE")
  open(tmp + "/t.sh", "w").write(t)
  subprocess.run(["bash", tmp + "/t.sh", tmp + "/o.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
  txt = json.dumps(json.load(open(tmp + "/o.json")).get("failed", []))
  stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
  return [s for s in stable if s in txt or s.replace("/", ".") in txt]


class Collect(ast.NodeVisitor):
  def __init__(self, funcs):
    self.sites = []
    self.funcs = funcs
    self.stack = []

  def visit_FunctionDef(self, node):
    self.stack.append(node.name)
    self.generic_visit(node)
    self.stack.pop()

  def generic_visit(self, node):
    ok = self.stack and self.stack[-1] not in ("main", "__str__", "__repr__", "print_debug") and \
      not any(s.startswith("print") or s.endswith("_str") for s in self.stack)
    if self.funcs and not any(s in self.funcs for s in self.stack):
      ok = False
    if ok:
      kinds = []
      if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        f = node.value.func
        if not (isinstance(f, ast.Name) and f.id == "print"):
          kinds.append("del")
      if isinstance(node, (ast.AugAssign, ast.Assign)):
        kinds.append("del")
      if isinstance(node, ast.Compare) and len(node.ops) == 1:
        kinds.append("cmp")
      if isinstance(node, ast.BoolOp):
        kinds.append("bool")
      if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        kinds.append("not")
      if isinstance(node, ast.Constant) and isinstance(node.value, int) and not isinstance(node.value, bool):
        kinds.append("num")
        kinds.append("num-")
      if isinstance(node, ast.Constant) and isinstance(node.value, bool):
        kinds.append("flip")
      if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)):
        kinds.append("arith")
      if isinstance(node, (ast.If, ast.While)):
        kinds.append("iff")
        kinds.append("ift")
      if isinstance(node, (ast.Continue, ast.Break)):
        kinds.append("del")
      for k in kinds:
        self.sites.append((id(node), k, getattr(node, "lineno", 0)))
    super().generic_visit(node)


class Apply(ast.NodeTransformer):
  def __init__(self, nid, kind, rng):
    self.nid, self.kind, self.rng = nid, kind, rng

  def visit(self, node):
    if id(node) != self.nid:
      return super().visit(node)
    k = self.kind
    if k == "del":
      return ast.Pass()
    if k == "cmp":
      m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
           ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
      node.ops = [m[type(node.ops[0])]()]
    elif k == "bool":
      node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif k == "not":
      return node.operand
    elif k == "num":
      node.value += 1
    elif k == "num-":
      node.value -= 1
    elif k == "flip":
      node.value = not node.value
    elif k == "arith":
      node.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult}[type(node.op)]()
    elif k == "iff":
      node.test = ast.Constant(False)
    elif k == "ift":
      node.test = ast.Constant(True)
    return node


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("file")
  ap.add_argument("props")
  ap.add_argument("-n", type=int, default=20)
  ap.add_argument("-s", type=int, default=1)
  ap.add_argument("-f", default="")
  ap.add_argument("--tests", action="store_true", help="skip mutants that fail the repository's own tests")
  a = ap.parse_args()
  src = open(os.path.join(SRC, a.file)).read()
  rng = random.Random(a.s)
  funcs = [x for x in a.f.split(",") if x]
  tree = ast.parse(src)
  c = Collect(funcs)
  c.visit(tree)
  order = list(range(len(c.sites)))
  rng.shuffle(order)
  base = ast.unparse(tree).splitlines()
  done = 0
  tmp = tempfile.mkdtemp(prefix="mut-")
  shutil.copytree(SRC, tmp + "/repo", ignore=shutil.ignore_patterns(".git", "Machines", "__pycache__"))
  try:
    for j in order:
      if done >= a.n:
        break
      t2 = ast.parse(src)
      c2 = Collect(funcs)
      c2.visit(t2)
      nid, kind, line = c2.sites[j]
      t2 = ast.fix_missing_locations(Apply(nid, kind, rng).visit(t2))
      new = ast.unparse(t2)
      if new.splitlines() == base:
        continue
      with open(os.path.join(tmp, "repo", a.file), "w") as f:
        f.write(new + "\n")
      import difflib
      diff = [l for l in difflib.unified_diff(base, new.splitlines(), n=0, lineterm="") if l[0] in "+-" and l[:3] not in ("+++", "---")]
      if a.tests and tests_fail(tmp):
        continue
      done += 1
      res = []
      for p in a.props.split(","):
        t0 = time.time()
        e = dict(os.environ, VERIF_REPO=tmp + "/repo")
        e.pop("VERIF_PINNED", None)
        try:
          r = subprocess.run(["python3", V + "/check.py", p, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
          rc = r.returncode
          why = [l for l in r.stdout.decode(errors="replace").splitlines() if "violation:" in l or "MACHINERY" in l][:1]
        except subprocess.TimeoutExpired:
          rc, why = "timeout", []
        res.append("%s=%s" % (p, rc))
      print("%-9s line %d %s %s | %s | %s" % ("KILLED" if "=1" in " ".join(res) else "SURVIVED", line, kind, res,
            " // ".join(x.strip()[:110] for x in diff), (why[0][:120] if why else "")), flush=True)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


main()

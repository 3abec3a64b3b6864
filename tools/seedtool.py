#!/usr/bin/env python3
"""Planted bugs: make the patch, confirm it, run checks on it - all in scratch copies of /repo.

  seedtool.py make ID            seeded/ID/edit.json [[file, old, new], ...] -> patch.diff (edit.json is removed)
  seedtool.py confirm ID...      patch applies, builds, stable tests pass, demo 0 without / nonzero with the patch
  seedtool.py catch ID...        run the property's quick check (VERIF_REPO=copy); prints caught / missed

Not part of any check."""
import json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def copy_repo():
  d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
  r = os.path.join(d, "repo")
  subprocess.run(["cp", "-a", "/repo", r], check=True)
  shutil.rmtree(os.path.join(r, "cpp", "build"), ignore_errors=True)
  subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
  return d, r


def make(i):
  d, r = copy_repo()
  for f, old, new in json.load(open(os.path.join(S, i, "edit.json"))):
    p = os.path.join(r, f)
    t = open(p).read()
    assert t.count(old) == 1, (i, f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
  diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, check=True).stdout
  open(os.path.join(S, i, "patch.diff"), "wb").write(diff)
  os.remove(os.path.join(S, i, "edit.json"))
  shutil.rmtree(d)


def run_tests(d, r):
  t = open("/opt/vp/test.sh").read().replace("/repo", r)
  p = os.path.join(d, "test.sh")
  open(p, "w").write(t)
  o = os.path.join(d, "o.json")
  subprocess.run(["bash", p, o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
  res = json.load(open(o))
  stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
  passed = set()
  def walk(x):
    if isinstance(x, dict):
      for k, v in x.items():
        if k == "passed" and isinstance(v, list):
          passed.update(v)
        elif v in ("PASS", "pass", "passed"):
          passed.add(k)
        else:
          walk(v)
  walk(res)
  return [s for s in stable if s.replace("/", ".") not in passed and s not in passed]


def build(r):
  t = open("/opt/vp/build.sh").read().replace("/repo", r)
  x = subprocess.run(["bash", "-c", t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
  return x.returncode, x.stdout.decode(errors="replace")


def demo(i, r, d):
  dd = os.path.join(d, "demo-" + i)
  shutil.copytree(os.path.join(S, i), dd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
  try:
    x = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    rc, out = x.returncode, x.stdout.decode(errors="replace")
  except subprocess.TimeoutExpired:
    rc, out = "timeout", ""
  shutil.rmtree(dd)
  return rc, out


def confirm(i):
  d, r = copy_repo()
  try:
    rc, out = build(r)
    if rc:
      return "clean build fails " + out[-500:]
    rc0, out0 = demo(i, r, d)
    a = subprocess.run(["git", "-C", r, "apply", os.path.join(S, i, "patch.diff")], stderr=subprocess.PIPE)
    if a.returncode:
      return "patch does not apply: " + a.stderr.decode()
    rc, out = build(r)
    if rc:
      return "build fails " + out[-800:]
    bad = run_tests(d, r)
    rc1, out1 = demo(i, r, d)
    ok = rc0 == 0 and rc1 not in (0, "timeout") and not bad
    return "%s demo clean=%s patched=%s tests failing=%s%s" % (
      "CONFIRMED" if ok else "NOT CONFIRMED", rc0, rc1, bad,
      "" if ok else "\n--clean--\n" + out0[-1500:] + "\n--patched--\n" + out1[-1500:])
  finally:
    shutil.rmtree(d)


def catch(i):
  d, r = copy_repo()
  try:
    subprocess.run(["git", "-C", r, "apply", os.path.join(S, i, "patch.diff")], check=True)
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    t = time.time()
    x = subprocess.run(["python3", os.path.join(V, "check.py"), prop, "quick"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1"))
    out = x.stdout.decode(errors="replace")
    c = x.returncode == 1 and "VIOLATION property=%s " % prop in out
    line = [l for l in out.splitlines() if "violation:" in l][:1]
    return "%s %s rc=%s %.0fs %s" % ("CAUGHT" if c else "MISSED", prop, x.returncode, time.time() - t,
                                     (line or [out[-600:]])[0][:260])
  finally:
    shutil.rmtree(d)


cmd, ids = sys.argv[1], sys.argv[2:]
if ids == ["all"]:
  ids = sorted(x for x in os.listdir(S) if os.path.exists(os.path.join(S, x, "patch.diff")))
for i in ids:
  r = {"make": make, "confirm": confirm, "catch": catch}[cmd](i)
  if r:
    print(i, r, flush=True)

"""Runs the record tools (as scripts) on scratch files."""
import contextlib
import gzip
import io
import json
import os
import random
import re
import runpy
import struct
import sys
import zipfile
from pathlib import Path

from google.protobuf import text_format

import Exp_Int
import Halting_Lib
import IO
import IO.BBC
import IO.TM_Record as TMR
import io_pb2
import drv_io
from bbcfmt import bbc_bytes
from drv_enum import cells
from drv_io import rand_record, walk

CODE = os.path.dirname(os.path.abspath(Halting_Lib.__file__))


def small_big(rng):
  x = rng.random()
  if x < .12:
    k, e, c = rng.randrange(1, 9), rng.choice([1500, 3000]), rng.randrange(-9, 9)
    return Exp_Int.exp_int(2, e) * k + c
  if x < .4:
    return rng.choice([0, 1, 998, 999, 1000, 1001, 9999, 10000, 10**8, 2**64, 2**64 - 1])
  return drv_io.rand_int(rng)


drv_io.rand_big = small_big


def value(v):
  return v if isinstance(v, int) else eval(str(v).replace("^", "**"), {"__builtins__": {}})


def limbs(msg, name):
  v = Halting_Lib.get_big_int(getattr(msg, name)) if msg.HasField(name) else None
  if v is None:
    return [-1]
  v = value(v)
  out = []
  while v:
    out.append(v % 10000)
    v //= 10000
  return out


def js(rec):
  got = []
  for name in ("status", "filter"):
    walk(getattr(rec.proto, name), name, got)
  if rec.proto.elapsed_time_us:
    got.append(["elapsed", "num", rec.proto.elapsed_time_us])
  tt = cells(rec.tm())
  st = rec.proto.status
  return {"m": json.dumps([tt, bool(rec.tm_enum().allow_no_halt)]), "tm": tt,
          "f": [[n, str(int(v) if isinstance(v, bool) else v)] for n, k, v in got
                if v is not False and not (k == "num" and v == 0)],
          "steps": limbs(st.halt_status, "halt_steps"), "score": limbs(st.halt_status, "halt_score"),
          "qsteps": limbs(st.quasihalt_status, "quasihalt_steps")}


def bare(r, nohalt=False):
  return {"m": json.dumps([r["tm"], nohalt]), "tm": r["tm"], "f": [], "steps": [-1], "score": [-1], "qsteps": [-1]}


def run_tool(name, *args, inp=None):
  out = io.StringIO()
  argv, stdin = sys.argv, sys.stdin
  sys.argv = [name] + [str(a) for a in args]
  sys.stdin = io.StringIO(inp or "")
  try:
    with contextlib.redirect_stdout(out):
      try:
        runpy.run_path(os.path.join(CODE, name + ".py"), run_name="__main__")
      except SystemExit as e:
        if e.code:
          raise AssertionError("%s %s exits with %r" % (name, args, e.code))
  finally:
    sys.argv, sys.stdin = argv, stdin
  return out.getvalue()


def read_pb(path):
  with IO.Proto.Reader(Path(path)) as r:
    return [js(x) for x in r]


def write_pb(path, recs):
  with IO.Proto.Writer(Path(path)) as w:
    for x in recs:
      w.write_record(x)


def num(s):
  return int(s.replace("_", ""))


def inputs(rng, task, maxfiles=3, keep=lambda rec: None, ext=None):
  """Random record files; returns (paths, records per file)."""
  paths, ins = [], []
  tts = list(task["tms"])
  n = rng.randrange(1, maxfiles + 1)
  cutpts = sorted(rng.randrange(len(tts) + 1) for _ in range(n - 1))
  parts = [tts[a:b] for a, b in zip([0] + cutpts, cutpts + [len(tts)])]
  for j, part in enumerate(parts):
    e = ext or rng.choice([".pb", ".pb.gz"])
    path = Path("in%d%s" % (j, e))
    recs = []
    for tt in part:
      rec = rand_record(rng, tt)[0]
      keep(rec)
      recs.append(rec)
    if e.startswith(".pb"):
      write_pb(path, recs)
      ins.append([js(r) for r in recs])
    else:
      with IO.StdText.Writer(path) as w:
        for r in recs:
          w.write_record(r)
      ins.append([bare(js(r)) for r in recs])
    paths.append(path)
  return paths, ins


def truncate(rng, path, ins):
  """Cut a plain file in the middle of a record; the complete ones remain."""
  data = path.read_bytes()
  if not data:
    return
  ends, at = [0], 0
  while at < len(data):
    at += 4 + struct.unpack("<L", data[at:at + 4])[0]
    ends.append(at)
  cut = rng.randrange(1, len(data))
  path.write_bytes(data[:cut])
  n = len([e for e in ends[1:] if e <= cut])
  del ins[n:]


# ------------------------------------------------------------------- tools
def at_boundary(rng):
  """Sometimes a verdict at (or without) the step counts that separate the classes."""
  def keep(rec):
    if rng.random() < .5:
      st = rec.proto.status
      st.Clear()
      n = rng.choice([None, 0, 1, 998, 999, 1000, 1001, 10**12])
      if rng.random() < .4:
        Halting_Lib.set_halting(st, 5, 4, 0, 0)
        st.halt_status.ClearField("halt_steps")
        if n is not None:
          Halting_Lib.set_big_int(st.halt_status.halt_steps, n)
      else:
        Halting_Lib.set_not_halting(st, rng.randrange(1, 9))
        q = st.quasihalt_status
        q.is_decided = rng.random() < .9
        q.is_quasihalting = rng.random() < .8
        if n is not None and q.is_quasihalting:
          Halting_Lib.set_big_int(q.quasihalt_steps, n)
          q.quasihalt_state = 1
  return keep


def categorize(task):
  rng = random.Random(task["seed"])
  paths, ins = inputs(rng, task, keep=at_boundary(rng))
  os.makedirs("cat", exist_ok=True)
  text = run_tool("IO_Categorize", *paths, "--out-dir", "cat")
  names = ["unknown", "halt.small", "halt.large", "halt.unk", "qhalt.small", "qhalt.large", "qhalt.unk", "infinite"]
  counts = {n: num(re.search(r"Categorized ([\d_]+) %s records" % n.replace(".", "_"), text).group(1)) for n in names}
  return [{"k": "categorize", "ins": ins, "out": {n: read_pb("cat/%s.pb" % n) for n in names}, "counts": counts,
           "total": num(re.search(r"Categorized ([\d_]+) records total", text).group(1))}]


def sort(task):
  rng = random.Random(task["seed"])
  paths, ins = inputs(rng, task, 1, ext=rng.choice([".pb", ".pb", ".pb.gz", ".txt"]))
  if paths[0].suffix == ".pb" and rng.random() < .25:
    truncate(rng, paths[0], ins[0])
  out = "out.pb" + rng.choice(["", ".gz"])
  run_tool("IO_Sort", paths[0], out)
  return [{"k": "sort", "ins": ins, "out": read_pb(out)}]


def sample(task):
  rng = random.Random(task["seed"])
  paths, ins = inputs(rng, task, ext=rng.choice([None, ".pb", ".txt"]))
  for p, r in zip(paths, ins):
    if p.suffix == ".pb" and rng.random() < .2:
      truncate(rng, p, r)
  total = sum(map(len, ins))
  n = rng.choice([1, 2, max(1, total - 1), max(1, total), total + 1, 1000])
  random.seed(rng.random())
  text = run_tool("IO_Sample", *paths, "--out-file", "s.pb", "-n", n)
  return [{"k": "sample", "ins": ins, "out": read_pb("s.pb"), "n": n,
           "total": num(re.search(r"Scanned ([\d_]+) total", text).group(1))}]


def freq(task):
  rng = random.Random(task["seed"])
  tms = task["tms"][:task["of"]]
  write_pb("q.pb", [drv_io.record_of(tt) for tt in tms])
  index = {json.dumps(tt): k for k, tt in enumerate(tms)}
  hits = [0] * len(tms)
  random.seed(rng.random())
  mod = runpy.run_path(os.path.join(CODE, "IO_Sample.py"), run_name="sampler")
  for _ in range(task["runs"]):
    with contextlib.redirect_stdout(io.StringIO()):
      mod["sample"]([Path("q.pb")], Path("s.pb"), task["n"])
    for r in read_pb("s.pb"):
      hits[index[json.dumps(r["tm"])]] += 1
  return [{"k": "freq", "ins": [], "of": len(tms), "n": task["n"], "runs": task["runs"], "hits": hits}]


def count(task):
  rng = random.Random(task["seed"])
  paths, ins = inputs(rng, task)
  for p, r in zip(paths, ins):
    if p.suffix == ".pb" and rng.random() < .3:
      truncate(rng, p, r)
  text = run_tool("IO_Count", *paths)
  each = [num(re.search(r"# TMs %s: ([\d_]+) " % re.escape(str(p)), text).group(1)) for p in paths]
  text2 = run_tool("IO_Count", *paths, "-s", "--print-freq", rng.choice([0, 1, 2, 1000]))
  return [{"k": "count", "ins": ins, "each": each, "total": num(re.search(r"Total # TMs: ([\d_]+) ", t).group(1))}
          for t in (text, text2)]


def parse_printed(text):
  if "ttable:" not in text:
    return []
  p = io_pb2.TMRecord()
  text_format.Parse(text[:text.index("\nttable:")], p)
  rec = TMR.TM_Record(proto=p)
  r = js(rec)
  shown = re.search(r"^ttable: (.*)$", text, re.M).group(1)
  if shown != rec.ttable_str():
    raise AssertionError("printed table %r of %r" % (shown, rec.ttable_str()))
  return [r]


def find(task):
  rng = random.Random(task["seed"])
  paths, ins = inputs(rng, task)
  out = []
  for _ in range(3):
    if rng.random() < .75:
      tt = rng.choice(task["tms"])
    else:
      tt = task["other"]
    text = drv_io.make_tm(tt).ttable_str()
    got = run_tool("IO_Find", "--", text, *paths)
    out.append({"k": "find", "ins": ins, "tm": tt, "out": parse_printed(got), "num": -1})
    if len(tt) <= 7 and len(tt[0]) <= 7:
      j = rng.randrange(len(paths))
      got = run_tool("Find_Record", "--", text, paths[j])
      first, _, rest = got.partition("\n")
      out.append({"k": "find", "ins": [ins[j]], "tm": tt, "out": parse_printed(rest), "num": int(first) if first else -1})
    j = rng.randrange(len(paths))
    if ins[j]:
      n = rng.randrange(len(ins[j]))
      got = run_tool("Read_Record", paths[j], n)
      out.append({"k": "at", "ins": [ins[j]], "num": n, "out": parse_printed(got)})
  return out


FILTERS = {
  "CTL1": ("CTL_Filter", "filter.ctl.ctl_as.", "result.success", io_pb2.INF_CTL),
  "CTL2": ("CTL_Filter", "filter.ctl.ctl_as_b.", "result.success", io_pb2.INF_CTL),
  "CTL3": ("CTL_Filter", "filter.ctl.ctl_a_bs.", "result.success", io_pb2.INF_CTL),
  "CTL4": ("CTL_Filter", "filter.ctl.ctl_as_b_c.", "result.success", io_pb2.INF_CTL),
  "CPS": ("CPS_Filter", "filter.closed_graph.", "result.success", io_pb2.INF_CLOSED_GRAPH),
  "RE": ("Reverse_Engineer_Filter", "filter.reverse_engineer.", "success", io_pb2.INF_REVERSE_ENGINEER),
  "BT": ("Backtracking_Filter", "filter.backtrack.", "result.success", io_pb2.INF_BACKTRACK),
}


def trials(kind, inp, outp, o, opts):
  """For each record: does one of the settings the options ask for decide the machine, tried one by one;
  does the setting recorded with a success decide it when tried again?  (-1: not asked)"""
  import Backtracking_Filter
  import CPS
  import CTL1
  import CTL2
  import CTL3
  import CTL4
  with IO.Reader(inp) as r:
    tms_in = [x.tm() for x in r]
  with IO.Proto.Reader(outp) as r:
    outs = list(r)

  def ctl(tm, b, off, cut, back):
    return {"CTL1": CTL1, "CTL2": CTL2, "CTL3": CTL3, "CTL4": CTL4}[kind].test_CTL(
      tm, cutoff=cut, block_size=b, offset=off, use_backsymbol=back)[0]

  def cps(tm, b, w):
    res = io_pb2.ClosedGraphFilterResult()
    CPS.filter(tm, b, w, o["--max-steps"], o["--max-iters"], o["--max-configs"], o["--max-edges"], res, io_pb2.BBStatus())
    return res.success

  some, again = [], []
  for tm, rec in zip(tms_in, outs):
    if kind.startswith("CTL"):
      back = "--no-backsymbol" not in opts
      sizes = range(o.get("--min-block-size", 1), o["--max-block-size"] + 1) if "--max-block-size" in opts else [o["--block-size"]]
      some.append(int(any(ctl(tm, b, off, o["--cutoff"], back) for b in sizes
                          for off in (range(b) if "--all-offsets" in opts else [o.get("--offset", 0)]))))
      info = getattr(rec.proto.filter.ctl, FILTERS[kind][1].split(".")[2])
      p = info.parameters
      again.append(int(ctl(tm, p.block_size, p.offset, p.cutoff, back)) if info.result.success else -1)
    elif kind == "CPS" and "--max-block-size" in opts:
      some.append(int(any(cps(tm, b, 3 * b) for b in range(o.get("--min-block-size", 1), o["--max-block-size"] + 1))))
      res = rec.proto.filter.closed_graph.result
      again.append(int(cps(tm, res.block_size, res.window_size)) if res.success else -1)
    elif kind == "BT":
      tt = Backtracking_Filter.get_ttable(tm)
      some.append(int(Backtracking_Filter.backtrack_ttable(tt, o["--steps"], o["--max-width"]).success))
      info = rec.proto.filter.backtrack
      again.append(int(Backtracking_Filter.backtrack_ttable(tt, info.parameters.num_steps, info.parameters.max_width).success)
                   if info.result.success else -1)
    else:
      some.append(-1)
      again.append(-1)
  return some, again


def filters(task):
  rng = random.Random(task["seed"])
  kind = task["filter"]
  tool, own, succ, reason = FILTERS[kind]

  def keep(rec):
    if kind.startswith("CTL"):
      rec.proto.filter.ClearField("ctl")
  paths, ins = inputs(rng, task, 1, keep, rng.choice([".pb", ".pb.gz", ".txt"]))
  out = "out.pb" + rng.choice(["", ".gz"])
  opts = []
  if kind.startswith("CTL"):
    opts = ["--type", kind, "--cutoff", rng.choice([5, 20, 60])]
    opts += rng.choice([["--block-size", 1], ["--block-size", 2], ["--block-size", 3, "--offset", 1],
                        ["--max-block-size", 3], ["--block-size", 3, "--all-offsets"],
                        ["--min-block-size", 2, "--max-block-size", 3, "--all-offsets"]])
    opts += rng.choice([[], ["--no-backsymbol"]])
  elif kind == "CPS":
    opts = rng.choice([["--block-size", 1], ["--block-size", 2], ["--max-block-size", 3],
                       ["--min-block-size", 2, "--max-block-size", 3], ["--max-window-size", 5]])
    opts += ["--max-steps", 1000, "--max-iters", 30, "--max-configs", 300, "--max-edges", 300]
  elif kind == "BT":
    opts = ["--steps", rng.choice([0, 3, 20]), "--max-width", rng.choice([2, 10])]
  run_tool(tool, "--infile", paths[0], "--outfile", out, *opts)
  got = read_pb(out)
  some, again = trials(kind, paths[0], out, dict(zip(opts, opts[1:] + [0])), opts)
  return [{"k": "filter", "some": some, "again": again, "ins": ins, "out": got, "own": own, "reason": str(reason), "fresh": int(kind == "CPS"),
           "success": [int([own + succ, "1"] in r["f"]) for r in got], "opts": list(map(str, opts))}]


def resim(task):
  """Re-simulation keeps machines and other results (own: the simulator's result and the verdict)."""
  rng = random.Random(task["seed"])

  def keep(rec):
    s = rec.proto.filter.simulator
    s.Clear()
    s.parameters.block_size = rng.choice([1, 1, 2, 3])
    s.parameters.has_blocksymbol_macro = rng.random() < .5
    s.parameters.max_loops = rng.choice([10, 60])
    s.parameters.max_tape_blocks = 50
    s.result.num_linear_rules_proven = rng.choice([0, 0, 1])
  paths, ins = inputs(rng, task, 1, keep, ".pb")
  run_tool("Re_Sim", paths[0], "out.pb")
  got = read_pb("out.pb")
  # ... and what it finds does not depend on the verdict recorded before.
  with IO.Proto.Reader(paths[0]) as r:
    blank = list(r)
  for rec in blank:
    rec.proto.status.Clear()
  write_pb("blank.pb", blank)
  run_tool("Re_Sim", "blank.pb", "out2.pb")
  got2 = read_pb("out2.pb")

  def untimed(r):
    return dict(r, f=[x for x in r["f"] if "elapsed" not in x[0]])

  def strip(r):
    return dict(r, f=[x for x in r["f"] if not x[0].startswith(("status.", "filter.simulator."))],
                steps=[-1], score=[-1], qsteps=[-1])
  return [{"k": "convert", "ins": [[strip(r) for r in ins[0]]], "out": [strip(r) for r in got], "total": len(ins[0])},
          {"k": "convert", "ins": [[untimed(r) for r in got2]], "out": [untimed(r) for r in got], "total": len(ins[0])}]


def zero(task):
  rng = random.Random(task["seed"])
  paths, ins = inputs(rng, task, 1, ext=rng.choice([".pb", ".pb.gz", ".txt"]))
  if not ins[0]:
    return []
  text = run_tool("Zero_Reflexive", paths[0], "yes.pb", "no.pb")
  m = re.search(r"# Zero Reflexive TMs: ([\d_]+) / ([\d_]+) =", text)
  return [{"k": "zero", "ins": ins, "yes": read_pb("yes.pb"), "no": read_pb("no.pb"),
           "nyes": num(m.group(1)), "total": num(m.group(2))}]


def stats(task):
  rng = random.Random(task["seed"])
  paths, ins = inputs(rng, task)
  for p, r in zip(paths, ins):
    if p.suffix == ".pb" and rng.random() < .2:
      truncate(rng, p, r)
  text = run_tool("TM_Analyze", *paths)
  if not sum(map(len, ins)):
    return []

  def g(name):
    m = re.search(r"^%s: ([\d_]+)" % name, text, re.M)
    return num(m.group(1)) if m else 0
  block = text[text.index("Infinite:"):].split("\n\n")[0]
  reasons = [[str(io_pb2.InfReason.Value(a) or ""), num(b)] for a, b in re.findall(r"- (\w+) *: *([\d_]+) ", block)]
  return [{"k": "stats", "ins": ins, "total": g("Total"), "unknown": g("Unknown"), "halt": g("Halt"), "inf": g("Infinite"),
           "qhalt": g("Quasihalt"), "reasons": reasons}]


# ------------------------------------------------------------- conversions
def old_lines(path):
  """Records of the old text format."""
  out = []
  for line in Path(path).read_text().splitlines():
    parts = line.split(" | ")
    tt = []
    for row in parts[0].split("  "):
      r = []
      for c in row.split(" "):
        r.append([-1, -1, -1] if c == "---" else [int(c[0]), "LR".index(c[1]), -1 if c[2] == "Z" else ord(c[2]) - 65])
      tt.append(r)
    words = parts[1].split(" ")
    rec = bare({"tm": tt})
    h = "status.halt_status."
    if words[1] == "Halt":
      rec["f"] = [[h + "is_decided", "1"], [h + "is_halting", "1"], ["steps", words[3]], ["score", words[2]]]
    elif words[1] == "Infinite":
      # reason, quasihalting state, quasihalting steps
      rec["f"] = [[h + "is_decided", "1"], ["reason", words[2]], ["qstate", words[3]], ["qsteps", words[4]]]
    out.append(rec)
  return out


OLD_REASON = {0: "", 1: "Repeat_in_Place", 2: "Chain_Move", 3: "Proof_System", 4: "Reverse_Engineer", 5: "Lin_Recur",
              6: "CTL", 7: "Backtrack", 8: "Closed_Graph"}


def as_old(r, rec):
  out = bare(r)
  h, q = rec.proto.status.halt_status, rec.proto.status.quasihalt_status

  def s(msg, name):
    return str(Halting_Lib.get_big_int(getattr(msg, name))).replace(" ", "") if msg.HasField(name) else "N/A"
  p = "status.halt_status."
  if h.is_decided and h.is_halting:
    out["f"] = [[p + "is_decided", "1"], [p + "is_halting", "1"], ["steps", s(h, "halt_steps")], ["score", s(h, "halt_score")]]
  elif h.is_decided:
    out["f"] = [[p + "is_decided", "1"], ["reason", OLD_REASON.get(h.inf_reason, "?")]]
    out["f"] += ([["qstate", "Quasihalt_Not_Computed"], ["qsteps", "N/A"]] if not q.is_decided else
                 [["qstate", str(q.quasihalt_state)], ["qsteps", s(q, "quasihalt_steps")]] if q.is_quasihalting else
                 [["qstate", "No_Quasihalt"], ["qsteps", "N/A"]])
  return out


def convert(task):
  rng = random.Random(task["seed"])
  inf, outf = task["in"], task["out"]
  tms = task["tms"]
  if "morphett" in (inf, outf):
    tms = tms[:1]
  recs = [rand_record(rng, tt)[0] for tt in tms]
  full = [js(r) for r in recs]
  plain = [bare(r) for r in full]
  args = []
  gz = rng.choice(["", ".gz"])
  if inf == "proto":
    path = "a.pb" + gz
    write_pb(path, recs)
    have, hrecs = full, recs
  else:
    have, hrecs = plain, [drv_io.record_of(tt) for tt in tms]
    if inf == "text":
      path = "a.txt" + gz
      with IO.StdText.Writer(path) as w:
        for r in recs:
          w.write_record(r)
    elif inf == "morphett":
      path = "a.morphett" + gz
      with IO.Morphett.Writer(path) as w:
        w.write_record(recs[0])
    else:
      data = b"h" * 30 + b"".join(bytes(bbc_bytes(tt)) for tt in tms)
      path = "a.db.zip" if inf == "bbc_db" else "seed.db.zip"
      with zipfile.ZipFile(path, "w") as z:
        z.writestr("db", data)
      if inf != "bbc_db":
        idx = [rng.randrange(len(tms)) for _ in range(1 if outf == "morphett" else rng.randrange(1, 6))]
        args = ["--bbc-seed-db", path]
        if inf == "bbc_index":
          path = "a.index"
          Path(path).write_bytes(b"".join(struct.pack(">L", k) for k in idx))
        else:
          path = "a.index.txt"
          Path(path).write_text("".join("%d\n" % k for k in idx))
        have, hrecs = [have[k] for k in idx], [hrecs[k] for k in idx]
  ogz = rng.choice(["", ".gz"]) if outf != "text_old" else ""
  out = {"proto": "b.pb", "text": "b.txt", "morphett": "b.morphett", "text_old": "b.old"}[outf] + ogz
  if rng.random() < .4:
    # Formats named on the command line; the names say nothing.
    os.replace(path, "plain.dat" + (gz if path.endswith(".gz") else ""))
    path = "plain.dat" + (gz if path.endswith(".gz") else "")
    args += ["--informat", inf]
  if rng.random() < .4:
    out = "other.dat" + ogz
    args += ["--outformat", outf]
  text = run_tool("IO_Convert", path, out, *args)
  total = num(re.search(r"Converted ([\d_]+) records", text).group(1))
  if outf == "proto":
    with IO.Proto.Reader(Path(out)) as r:
      got = [js(x) for x in r]
    want = have
  elif outf == "text":
    with IO.StdText.Reader(Path(out)) as r:
      got = [js(x) for x in r]
    want = [bare(r) for r in have]
  elif outf == "morphett":
    with IO.Morphett.Reader(Path(out)) as r:
      got = [js(x) for x in r]
    # Morphett files name states and symbols in order of appearance; compare what the writer makes of both.
    want = [bare(r) for r in have]
  else:
    got = old_lines(out)
    want = [as_old(r, x) for r, x in zip(have, hrecs)]
  return [{"k": "convert", "ins": [want], "out": got, "total": total}]

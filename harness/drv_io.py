"""Runs the real readers and writers on scratch files."""
import gzip
import json
import os
import random
import struct
import zipfile
from pathlib import Path

import Exp_Int
import Halting_Lib
import IO
import IO.BBC
import IO.General
import IO.TM_Record as TMR
import TM_Enum
import io_pb2
from Macro import Turing_Machine
from drv_enum import cells


def make_tm(tt, states=None, symbols=None):
  states = list(range(len(tt))) if states is None else list(states)
  symbols = list(range(len(tt[0]))) if symbols is None else list(symbols)
  quints = []
  for q, row in enumerate(tt):
    for s, (w, d, n) in enumerate(row):
      if w >= 0:
        quints.append((states[q], symbols[s], symbols[w], d, -1 if n < 0 else states[n]))
  return Turing_Machine.tm_from_quintuples(quints, states, symbols)


def record_of(tt, nohalt=False):
  return TMR.TM_Record(tm_enum=TM_Enum.TM_Enum(make_tm(tt), allow_no_halt=nohalt))


# ---------------------------------------------------------------- machines
def machines(task):
  """Every stored form of each machine and every way to read it back."""
  out = []
  for tt in task["tms"]:
    rec = record_of(tt)
    text = rec.ttable_str()
    base = {"k": "machine", "tm": tt, "text": text if text else "?"}
    form = rec.proto.tm.WhichOneof("ttable")
    if form == "ttable_packed":
      base.update(form="packed", bytes=list(rec.proto.tm.ttable_packed), ns=0, ny=0)
    else:
      lst = rec.proto.tm.ttable_list
      base.update(form="list", bytes=list(lst.ttable_list), ns=lst.num_states, ny=lst.num_symbols)
    backs = {}
    p = io_pb2.TMRecord()
    p.ParseFromString(rec.proto.SerializeToString())
    backs["record"] = cells(TMR.TM_Record(proto=p).tm())
    backs["read_tm"] = cells(TMR.read_tm(rec.proto.tm))
    if text:
      backs["parse_tm"] = cells(TMR.parse_tm(text))
      backs["get_tm"] = cells(IO.General.get_tm(text))
      p = io_pb2.TMRecord()
      p.tm.ttable_str = text
      backs["ttable_str"] = cells(TMR.TM_Record(proto=p).tm())
      # any letter that is not a state's name stands for halting
      if "Z" in text:
        for letter in {chr(65 + len(tt)), "H" if len(tt) <= 7 else "Y"}:
          backs["halt_" + letter] = cells(TMR.parse_tm(text.replace("Z", letter)))
          backs["halt_get_" + letter] = cells(IO.General.get_tm(text.replace("Z", letter)))
    after = cells(rec.tm())
    for how, back in backs.items():
      out.append(dict(base, after=after, back=back, how=how))
    # The list form works at any size.
    lst = io_pb2.TMList()
    tm = make_tm(tt)
    TMR.tm_to_list(tm, lst)
    out.append(dict(base, form="list", bytes=list(lst.ttable_list), ns=lst.num_states, ny=lst.num_symbols,
                    after=cells(tm), back=cells(TMR.tm_from_list(lst)), how="list"))
  return out


def raw_bytes(task):
  """Packed and BBC bytes that were not written by our writers."""
  out = []
  for bs in task["packed"]:
    out.append({"k": "bytes", "form": "packed", "bytes": bs, "back": cells(TMR.unpack_tm(bytes(bs)))})
  for bs in task["bbc"]:
    out.append({"k": "bytes", "form": "bbc", "bytes": bs, "back": cells(IO.BBC.unpack_tm(bytes(bs)))})
  return out


# ---------------------------------------------------------------- morphett
def morphett(task):
  out = []
  for j, (tt, states, symbols, gz) in enumerate(task["tms"]):
    tm = make_tm(tt, states, symbols)
    tm.states, tm.symbols = list(tm.states), list(tm.symbols)
    rec = TMR.TM_Record(tm_enum=TM_Enum.TM_Enum(tm, allow_no_halt=False))
    path = Path("m%d.morphett%s" % (j, ".gz" if gz else ""))
    s0, y0 = [str(x) for x in tm.states], [str(x) for x in tm.symbols]
    with IO.Writer(path) as w:
      w.write_record(rec)
    data = gzip.open(path).read() if gz else path.read_bytes()
    lines = [x.split() for x in data.decode().splitlines() if x.strip()]
    case = {"k": "morphett", "tm": tt, "states": s0, "symbols": y0, "lines": lines,
            "after": cells(rec.tm()), "states2": [str(x) for x in tm.states], "symbols2": [str(x) for x in tm.symbols]}
    backs = []
    with IO.Reader(path) as r:
      backs += [x.tm() for x in r]
    if len(backs) != 1:
      raise AssertionError("%d machines in a Morphett file" % len(backs))
    backs.append(IO.General.get_tm(str(path)))
    backs.append(IO.General.load_tm(path, 0))
    for b in backs:
      out.append(dict(case, back=cells(b), bstates=[str(x) for x in b.states], bsymbols=[str(x) for x in b.symbols]))
    path.unlink()
  return out


# ------------------------------------------------------------------- files
INTS = [0, 1, 7, 999, 1000, 2**31 - 1, 2**31, 2**53 + 1, 2**63 - 2, 2**63 - 1, 2**63, 2**64, 2**64 + 1, 3**100, 10**400]


def rand_int(rng, cap=None):
  x = rng.random()
  v = rng.choice(INTS) if x < .5 else rng.randrange(10**6) if x < .8 else rng.getrandbits(rng.randrange(1, 300))
  return v if cap is None else v % cap


def rand_big(rng):
  if rng.random() < .15:
    e = Exp_Int.exp_int(rng.choice([2, 3, 10]), rng.choice([5000, 10**6 + 3]))
    return (e * rng.randrange(1, 9) + rng.randrange(-9, 9))
  return rand_int(rng)


def fill(rng, msg, depth, prefix, got):
  """Set random fields of a message; `got` collects what was set."""
  for f in msg.DESCRIPTOR.fields:
    if rng.random() < .5 or f.is_repeated or f.name.endswith("_old"):
      continue
    if f.containing_oneof and msg.WhichOneof(f.containing_oneof.name):
      continue
    name = prefix + "." + f.name
    if f.message_type:
      if f.message_type.name == "BigInt":
        v = rand_big(rng)
        Halting_Lib.set_big_int(getattr(msg, f.name), v)
        got.append([name, "big", str(v)])
      elif depth:
        getattr(msg, f.name).SetInParent()
        fill(rng, getattr(msg, f.name), depth - 1, name, got)
    elif f.enum_type:
      v = rng.choice(f.enum_type.values).number
      setattr(msg, f.name, v)
      got.append([name, "num", v])
    elif f.type == f.TYPE_BOOL:
      setattr(msg, f.name, True)
      got.append([name, "num", True])
    elif f.type in (f.TYPE_FLOAT, f.TYPE_DOUBLE):
      v = rng.randrange(1, 4000) / 8
      setattr(msg, f.name, v)
      got.append([name, "num", v])
    elif f.type in (f.TYPE_STRING,):
      v = "".join(rng.choice("abc 0\n|{}é") for _ in range(rng.randrange(1, 9)))
      setattr(msg, f.name, v)
      got.append([name, "str", v])
    elif f.type == f.TYPE_BYTES:
      continue
    else:
      v = rand_int(rng, 2**31 if "32" in str(f.cpp_type) else 2**63)
      if f.type in (f.TYPE_SINT64, f.TYPE_SINT32) and rng.random() < .5:
        v = -v
      setattr(msg, f.name, v)
      if v:
        got.append([name, "num", v])


def walk(msg, prefix, got):
  for f, v in msg.ListFields():
    name = prefix + "." + f.name
    if f.message_type:
      if f.message_type.name == "BigInt":
        got.append([name, "big", str(Halting_Lib.get_big_int(v))])
      else:
        walk(v, name, got)
    else:
      got.append([name, "str" if isinstance(v, str) else "num", v])


def fp(tt, nohalt, fields):
  fields = [x for x in fields if x[2] is not False and not (x[1] == "num" and x[2] == 0)]
  return json.dumps([tt, bool(nohalt), sorted(fields, key=lambda x: x[0])], separators=(",", ":"))


def fp_of(rec):
  got = []
  for name in ("status", "filter"):
    walk(getattr(rec.proto, name), name, got)
  if rec.proto.elapsed_time_us:
    got.append(["elapsed", "num", rec.proto.elapsed_time_us])
  return fp(cells(rec.tm()), rec.tm_enum().allow_no_halt, got)


def rand_record(rng, tt):
  nohalt = rng.random() < .4
  rec = record_of(tt, nohalt)
  got = []
  st = rec.proto.status
  x = rng.random()
  if x < .3:
    steps, score = rand_big(rng), rand_big(rng)
    fq, fs = rng.randrange(len(tt)), rng.randrange(len(tt[0]))
    Halting_Lib.set_halting(st, steps, score, fq, fs)
    h = "status.halt_status."
    got += [[h + "is_decided", "num", True], [h + "is_halting", "num", True], [h + "halt_steps", "big", str(steps)],
            [h + "halt_score", "big", str(score)], [h + "from_state", "num", fq], [h + "from_symbol", "num", fs],
            ["status.quasihalt_status.is_decided", "num", True]]
  elif x < .5:
    why = rng.randrange(1, 9)
    Halting_Lib.set_not_halting(st, why)
    h = "status.halt_status."
    got += [[h + "is_decided", "num", True], [h + "inf_reason", "num", why]]
    if rng.random() < .6:
      seen = {q: rng.randrange(10**6) for q in range(len(tt))}
      keep = set(q for q in seen if rng.random() < .5)
      Halting_Lib.set_inf_recur(st, keep, dict(seen))
      h = "status.quasihalt_status."
      got.append([h + "is_decided", "num", True])
      rest = [q for q in seen if q not in keep]
      if rest:
        last = max(seen[q] for q in rest)
        got += [[h + "is_quasihalting", "num", True], [h + "quasihalt_steps", "big", str(last + 1)],
                [h + "quasihalt_state", "num", [q for q in rest if seen[q] == last][0]]]
  elif x < .65:
    fill(rng, st, 3, "status", got)
  if rng.random() < .7:
    fill(rng, rec.proto.filter, 4, "filter", got)
  if rng.random() < .5:
    rec.proto.elapsed_time_us = v = rng.randrange(1, 10**12)
    got.append(["elapsed", "num", v])
  return rec, fp(tt, nohalt, got)


def read_iter(path, kind=None):
  mod = kind or IO.General
  got = []
  try:
    with mod.Reader(path) as r:
      for rec in r:
        got.append(fp_of(rec))
    return got, "end"
  except (IO.Proto.IO_Error, IO.BBC.IO_Error, EOFError, gzip.BadGzipFile):
    return got, "cut"


def read_skip(path, kind=None):
  mod = kind or IO.General
  n = 0
  try:
    with mod.Reader(path) as r:
      while r.skip_record():
        n += 1
        if n > 10**5:
          raise AssertionError("skip_record never ends")
    return n, "end"
  except (IO.Proto.IO_Error, IO.BBC.IO_Error, EOFError, gzip.BadGzipFile):
    return n, "cut"


def read_load(path, n, mod):
  try:
    rec = mod.load_record(path, n)
    return [fp_of(rec)] if rec else []
  except (IO.Common.RecordLocateError, IO.Proto.IO_Error, IO.BBC.IO_Error, EOFError, gzip.BadGzipFile):
    return []


def proto_file(task):
  rng = random.Random(task["seed"])
  gz = task["gz"]
  path = Path("f.pb" + (".gz" if gz else ""))
  recs = [rand_record(rng, tt) for tt in task["tms"]]
  with IO.Writer(path) as w:
    for rec, _ in recs:
      w.write_record(rec)
      if rng.random() < .2:
        w.flush()
  data = gzip.open(path).read() if gz else path.read_bytes()
  case = {"k": "file", "form": "proto", "recs": [f for _, f in recs], "start": 0, "frames": 1 if len(data) < 1200 else 0,
          "bytes": list(data) if len(data) < 1200 else [], "lens": [len(r.proto.SerializeToString()) + 4 for r, _ in recs]}
  reads = [{"what": "iter", "cut": len(data), "got": [fp_of(r) for r, _ in recs], "how": "end", "n": 0}]

  def all_reads(p, cut):
    got, how = read_iter(p)
    reads.append({"what": "iter", "cut": cut, "got": got, "how": how, "n": 0})
    n, how = read_skip(p)
    reads.append({"what": "skip", "cut": cut, "got": [], "how": how, "n": n})
    for n in {rng.randrange(len(recs) + 1), 0}:
      reads.append({"what": "load", "cut": cut, "got": read_load(p, n, IO.Proto), "how": "", "n": n})
    # Mixed: read some, skip some.
    with IO.Reader(p) as r:
      j, want = 0, rng.randrange(len(recs) + 1)
      try:
        while j < want and r.skip_record():
          j += 1
        rec = r.read_record() if j == want else None
        got = [fp_of(rec)] if rec else []
      except (IO.Proto.IO_Error, EOFError, gzip.BadGzipFile):
        got = []
      reads.append({"what": "load", "cut": cut, "got": got, "how": "", "n": want})
  all_reads(path, len(data))
  bounds = [0]
  for n in case["lens"]:
    bounds.append(bounds[-1] + n)
  cuts = set(rng.randrange(len(data) + 1) for _ in range(task["cuts"]))
  for b in bounds:
    cuts.update(c for c in (b - 1, b, b + 1, b + 3, b + 4, b + 5) if 0 <= c <= len(data) and rng.random() < .5)
  for cut in sorted(cuts):
    p = Path("cut.pb" + (".gz" if gz else ""))
    if gz:
      with gzip.open(p, "wb") as f:
        f.write(data[:cut])
    else:
      p.write_bytes(data[:cut])
    all_reads(p, cut)
  out = [dict(case, reads=reads)]
  if gz:
    # The compressed file itself is cut: some prefix, and then the cut is noticed.
    raw = path.read_bytes()
    for _ in range(task["cuts"]):
      c = rng.randrange(1, len(raw))
      Path("raw.pb.gz").write_bytes(raw[:c])
      got, how = read_iter(Path("raw.pb.gz"))
      out.append(dict(case, frames=0, bytes=[], lens=case["lens"] + [10**6], recs=case["recs"] + ["?"],
                      reads=[{"what": "iter", "cut": sum(case["lens"][:len(got)]) + 1, "got": got, "how": how, "n": 0}]))
  return out


def text_file(task):
  rng = random.Random(task["seed"])
  path = Path("t.txt" + (".gz" if task["gz"] else ""))
  recs = [rand_record(rng, tt) for tt in task["tms"]]
  with IO.Writer(path) as w:
    for (rec, _), tt in zip(recs, task["tms"]):
      if rng.random() < .2:
        w.write_tm(rec.tm())
        rec.proto.status.Clear()
      else:
        w.write_record(rec)
  data = gzip.open(path).read() if task["gz"] else path.read_bytes()
  lines = data.decode().split("\n")
  assert lines[-1] == "", lines
  lines = lines[:-1]
  want = []
  for (rec, _) in recs:
    h = rec.proto.status.halt_status
    words = rec.ttable_str()
    if h.is_halting:
      words += " Halt"
      for f in (h.halt_steps, h.halt_score):
        v = Halting_Lib.get_big_int(f)
        words += " " + (str(v) if isinstance(v, int) and 0 <= v < 10**10 else "N/A" if v is None else "*")
    want.append(words)
  seen = []
  for a, b in zip(want, lines):
    aw, bw = a.split(), b.split()
    seen.append(" ".join("*" if x == "*" else y for x, y in zip(aw, bw)) if len(aw) == len(bw) else b)
  seen += lines[len(seen):]
  total = len(data)
  lens = [len(x.encode()) + 1 for x in lines] if len(lines) == len(recs) else [total] + [0] * (len(recs) - 1)
  base = {"k": "file", "form": "text", "start": 0, "frames": 0, "bytes": [], "lens": lens}
  plain = [fp(tt, False, []) for tt in task["tms"]]
  reads = []
  got, how = read_iter(path)
  reads.append({"what": "iter", "cut": total, "got": got, "how": how, "n": 0})
  with open(path) if not task["gz"] else gzip.open(path, "rt") as f:
    with IO.Reader(f) as r:
      reads.append({"what": "iter", "cut": total, "got": [fp_of(x) for x in r], "how": "end", "n": 0})
  n, how = read_skip(path)
  reads.append({"what": "skip", "cut": total, "got": [], "how": how, "n": n})
  for n in range(len(recs) + 1):
    reads.append({"what": "load", "cut": total, "got": read_load(path, n, IO.StdText), "how": "", "n": n})
    if n < len(recs):
      reads.append({"what": "load", "cut": total, "got": [fp(cells(IO.General.get_tm("%s:%d" % (path, n))), False, [])], "how": "", "n": n})
  return [dict(base, recs=plain, reads=reads),
          dict(base, recs=want, reads=[{"what": "iter", "cut": total, "got": seen, "how": "end", "n": 0}])]


def bbc_file(task):
  rng = random.Random(task["seed"])
  header = bytes(rng.randrange(256) for _ in range(30))
  data = header + b"".join(bytes(b) for b in task["bytes"])
  recs = [fp(tt, False, []) for tt in task["tms"]]
  reads = []

  def put(name, content):
    with zipfile.ZipFile(name, "w", zipfile.ZIP_DEFLATED if rng.random() < .5 else zipfile.ZIP_STORED) as z:
      z.writestr("db", content)

  cuts = {len(data), 30} | set(rng.randrange(30, len(data) + 1) for _ in range(task["cuts"]))
  for cut in sorted(cuts):
    put("b.db.zip", data[:cut])
    got, how = read_iter("b.db.zip", IO.BBC)
    reads.append({"what": "iter", "cut": cut, "got": got, "how": how, "n": 0})
    n, how = read_skip("b.db.zip", IO.BBC)
    reads.append({"what": "skip", "cut": cut, "got": [], "how": how, "n": n})
    n = rng.randrange(len(recs) + 1)
    reads.append({"what": "load", "cut": cut, "got": read_load("b.db.zip", n, IO.BBC), "how": "", "n": n})
    with IO.BBC.Reader("b.db.zip") as r:
      try:
        rec = r.get_tm(n)
        got = [fp_of(rec)] if rec else []
      except IO.BBC.IO_Error:
        got = []
      reads.append({"what": "load", "cut": cut, "got": got, "how": "", "n": n})
  base = {"k": "file", "form": "bbc", "start": 30, "frames": 0, "bytes": []}
  out = [dict(base, recs=recs, lens=[30] * len(recs), reads=reads)]
  # Index files select records of the database by number.
  put("b.db.zip", data)
  idx = [rng.randrange(len(recs)) for _ in range(rng.randrange(1, 6))]
  Path("x.index").write_bytes(b"".join(struct.pack(">L", k) for k in idx))
  Path("x.index.txt").write_text("".join("%d\n" % k for k in idx))
  for cls, name in ((IO.BBC.IndexReader, "x.index"), (IO.BBC.TextIndexReader, "x.index.txt")):
    with cls("b.db.zip", name) as r:
      got = [fp_of(x) for x in r]
    out.append(dict(base, start=0, recs=[recs[k] for k in idx], lens=[4] * len(idx),
                    reads=[{"what": "iter", "cut": 4 * len(idx), "got": got, "how": "end", "n": 0}]))
  cut = rng.randrange(4 * len(idx))
  Path("x.index").write_bytes(Path("x.index").read_bytes()[:cut])
  got, how = [], "end"
  try:
    with IO.BBC.IndexReader("b.db.zip", "x.index") as r:
      for x in r:
        got.append(fp_of(x))
  except IO.BBC.IO_Error:
    how = "cut"
  out.append(dict(base, start=0, recs=[recs[k] for k in idx], lens=[4] * len(idx),
                  reads=[{"what": "iter", "cut": cut, "got": got, "how": how, "n": 0}]))
  return out

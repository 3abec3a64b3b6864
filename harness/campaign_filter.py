"""A filter for campaigns: gives every machine some verdict (any class), or misbehaves.

  campaign_filter.py --salt=N [--fail|--lose] --infile=.. --outfile=.."""
import argparse
import sys
import zlib

import Halting_Lib
import IO
import io_pb2

p = argparse.ArgumentParser()
p.add_argument("--salt", default="")
p.add_argument("--fail", action="store_true")
p.add_argument("--lose", action="store_true")
p.add_argument("--infile", required=True)
p.add_argument("--outfile", required=True)
a = p.parse_args()
with IO.Proto.Writer(a.outfile) as writer:
  with IO.Reader(a.infile) as reader:
    for k, rec in enumerate(reader):
      if k == 1 and (a.fail or a.lose):
        if a.fail:
          writer.flush()
          sys.exit(3)
        continue
      x = zlib.crc32((a.salt + rec.ttable_str().replace("1RZ", "---")).encode()) % 16
      st = rec.proto.status
      if x < 2:
        st.halt_status.is_decided = st.halt_status.is_halting = True
        if x:
          Halting_Lib.set_big_int(st.halt_status.halt_steps, 2000)
      elif x < 4:
        Halting_Lib.set_not_halting(st, io_pb2.INF_LIN_RECUR)
        st.quasihalt_status.is_decided = st.quasihalt_status.is_quasihalting = True
        if x == 2:
          Halting_Lib.set_big_int(st.quasihalt_status.quasihalt_steps, 1000)
      elif x < 6:
        Halting_Lib.set_not_halting(st, io_pb2.INF_LIN_RECUR)
        if x == 4:
          st.quasihalt_status.is_decided = st.quasihalt_status.is_quasihalting = True
          Halting_Lib.set_big_int(st.quasihalt_status.quasihalt_steps, 999)
      elif x < 7:
        Halting_Lib.set_halting(st, 999, 5, 0, 1)
      writer.write_record(rec)
if a.fail:
  sys.exit(3)

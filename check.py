#!/opt/venv/bin/python
"""check.py <property id> [quick|thorough]

Exit 0: the property held on everything explored.  Exit 1 with a line
"VIOLATION property=<id> replay=<path>": it did not.  Exit 2: the machinery failed."""
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
if os.environ.get("VERIF_PINNED") != "1":
  os.environ["VERIF_PINNED"] = "1"
  os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv)

import vlib
import registry


def main():
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
  seed = int(os.environ.get("VERIF_SEED", "1"))
  ctx = vlib.Ctx(prop, tier, seed)
  try:
    registry.run(prop, ctx)
    rc = ctx.finish()
  except vlib.MachineryError as e:
    print("MACHINERY: %s" % e)
    rc = ctx.finish() if ctx.violations else 2
  except Exception:
    traceback.print_exc()
    rc = ctx.finish() if ctx.violations else 2
  finally:
    vlib.cleanup()
  sys.stdout.flush()
  os._exit(rc)


main()

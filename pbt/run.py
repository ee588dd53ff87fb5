"""Runs a check: run.py C01 [--tier quick|thorough] | run.py --replay FILE."""
import argparse
import os
import signal
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import engine

if __name__ == "__main__":
  ap = argparse.ArgumentParser()
  ap.add_argument("prop", nargs="?")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
  ap.add_argument("--seed", type=int,
                  default=int(os.environ.get("VERIF_SEED") or 1))
  ap.add_argument("--replay")
  ap.add_argument("--worker", type=int)
  ap.add_argument("--out")
  ap.add_argument("--root")
  a = ap.parse_args()
  # Everything runs in the project's environment, with a fixed set of variables.
  if os.environ.get("PBT_CHILD") != "1":
    os.execve(engine.PYTHON, [engine.PYTHON] + sys.argv, engine.child_env())
  engine.setup_paths()
  engine.quiet()
  sys.modules["engine"] = engine

  def hung(*_):
    raise engine.Hung()

  signal.signal(signal.SIGPROF, hung)
  if a.worker is not None:
    engine.worker(a.prop, a.tier, a.seed, a.worker, a.out, a.root)
    sys.stdout.flush()
    os._exit(0)
  elif a.replay:
    sys.exit(engine.replay(a.replay))
  else:
    code = engine.main_check(a.prop, a.tier, a.seed)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)

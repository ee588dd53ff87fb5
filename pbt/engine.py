"""Drives generated cases through a check: workers, shrinking, evidence.

A check module (checks/cNN.py) has:
  PROPERTY, LEVEL, RULE, ASSUMPTIONS
  SUITES: list of Suite(name, strategy_fn, run_fn, quick, thorough)
A case is plain JSON data made by a Hypothesis strategy; run_fn(case, ctx)
executes it against the code in /repo and raises Violation when the property
does not hold. run_fn draws nothing: a saved case replays without Hypothesis.
"""

import hashlib
import importlib
import importlib.abc
import importlib.machinery
import json
import logging
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import uuid

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")
HYP_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PYTHON = "/opt/venv/bin/python"
WORKERS = 8


class Violation(Exception):
  """The property does not hold."""


class Abort(BaseException):
  """Stops a Hypothesis run."""


class _OnlyHypothesis(importlib.abc.MetaPathFinder):
  """Makes Hypothesis importable, and nothing else of that environment."""

  def find_spec(self, name, path, target=None):
    if name.split(".")[0] not in ("hypothesis", "sortedcontainers",
                                  "_hypothesis_globals",
                                  "_hypothesis_ftz_detector"):
      return None
    return importlib.machinery.PathFinder.find_spec(
        name, path if path is not None else [HYP_SITE], target)


def setup_paths():
  for p in (os.path.join(HERE, "fakeray"), os.path.join(REPO, "python/src")):
    if p in sys.path:
      sys.path.remove(p)
    sys.path.insert(0, p)
  if HERE not in sys.path:
    sys.path.insert(0, HERE)
  sys.meta_path.append(_OnlyHypothesis())
  sys.dont_write_bytecode = True


def quiet():
  logging.disable(logging.CRITICAL)
  import warnings
  warnings.simplefilter("ignore")


class Suite:

  def __init__(self, name, strategy, run, quick, thorough=None):
    self.name, self.strategy, self.run = name, strategy, run
    self.quick, self.thorough = quick, thorough or quick * 12


class Ctx:
  """Services for one execution of a case."""

  def __init__(self, scratch):
    self.scratch = scratch
    self.labels = {}
    self.nontrivial_ = False
    self.n = 0

  def label(self, name, n=1):
    self.labels[name] = self.labels.get(name, 0) + n

  def nontrivial(self, yes=True):
    if yes:
      self.nontrivial_ = True

  def new_dir(self):
    self.n += 1
    return os.path.join(self.scratch, f"d{self.n}")


class Hung(BaseException):
  """A case used more CPU time than any case should."""


CASE_CPU = 150  # Seconds; cases take a small fraction of one.


def arm(on=True):
  signal.setitimer(signal.ITIMER_PROF, CASE_CPU if on else 0)


def from_space(e):
  """Was the exception raised by the code under test (or below it)?"""
  tb = e.__traceback__
  src = os.path.realpath(os.path.join(REPO, "python/src/space"))
  while tb is not None:
    if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
      return True
    tb = tb.tb_next
  return False


def seed_uuids(case):
  """Makes the names of files a function of the case, so that what depends on
  their order fails again when the case is run again."""
  rnd = random.Random(canon(case))
  uuid.uuid4 = lambda: uuid.UUID(int=rnd.getrandbits(128), version=4)


def run_one(suite, case, root):
  """Runs one case in a fresh scratch directory. Returns its Ctx."""
  scratch = tempfile.mkdtemp(dir=root)
  ctx = Ctx(scratch)
  seed_uuids(case)
  arm()
  try:
    suite.run(case, ctx)
  except Violation:
    raise
  except Hung:
    raise Violation(f"did not finish within {CASE_CPU} s of CPU time") from None
  except Exception as e:
    if isinstance(e, (MemoryError, ImportError)):
      raise
    # Raised by the code, or by the check on what the code returned.
    where = "" if from_space(e) else " (in the check, on the code's results)"
    raise Violation(
        f"unexpected {type(e).__name__}{where}: {str(e)[:600]}") from e
  finally:
    arm(False)
    os.chdir("/")
    shutil.rmtree(scratch, ignore_errors=True)
  return ctx


def scratch_root():
  base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
  return tempfile.mkdtemp(prefix="pbt_", dir=base)


def canon(case):
  return json.dumps(case, sort_keys=True, separators=(",", ":"))


def worker(prop, tier, seed, index, out, root):
  """Runs this worker's share of the cases of all suites."""
  mod = load_check(prop)
  budget = float(os.environ.get("PBT_BUDGET", 0)) or (
      240 if tier == "quick" else 780)
  shrink_budget = 60
  deadline = time.monotonic() + budget
  res = dict(evaluations=0, skipped=0, hashes=[], labels={}, samples=[],
             violation=None, suites={}, hung=0)
  from hypothesis import HealthCheck, Phase, Verbosity, given, settings
  import hypothesis

  for si, suite in enumerate(mod.SUITES):
    n = suite.quick if tier == "quick" else suite.thorough
    n = max(1, n // WORKERS)
    best = {"case": None, "len": None, "error": None, "at": None, "first": None}
    stat = dict(evaluations=0, nontrivial=0)
    res["suites"][suite.name] = stat

    def body(case):
      if best["at"] is None and time.monotonic() > deadline:
        res["skipped"] += 1
        return
      if best["at"] is not None and (time.monotonic() - best["at"] >
                                     shrink_budget):
        raise Abort()
      text = canon(case)
      case = json.loads(text)
      try:
        ctx = run_one(suite, case, root)
      except Violation as e:
        if best["at"] is None:
          best["at"] = time.monotonic()
          best["first"] = case
        if best["len"] is None or len(text) <= best["len"]:
          best.update(case=case, len=len(text), error=str(e))
        if isinstance(e.__context__, Hung):
          raise Abort() from None
        raise
      except Exception:
        res["harness_error"] = dict(suite=suite.name, case=case,
                                    trace=traceback.format_exc())
        raise Abort() from None
      if best["at"] is not None:
        return
      res["evaluations"] += 1
      stat["evaluations"] += 1
      for k, v in ctx.labels.items():
        res["labels"][k] = res["labels"].get(k, 0) + v
      if ctx.nontrivial_:
        stat["nontrivial"] += 1
        h = hashlib.sha1((suite.name + text).encode()).hexdigest()[:16]
        res["hashes"].append(h)
        if len(res["samples"]) < 2 and stat["nontrivial"] % 7 == 3:
          res["samples"].append(dict(suite=suite.name, case=case))

    test = given(suite.strategy(tier))(body)
    test = hypothesis.seed(seed * 1000003 + index * 101 + si)(test)
    test = settings(max_examples=n, database=None, deadline=None,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=Verbosity.quiet)(test)
    try:
      test()
    except Abort:
      pass
    except Exception:  # Violation, Flaky, ...
      if best["case"] is None:
        res["harness_error"] = dict(suite=suite.name, case=None,
                                    trace=traceback.format_exc())
    if best["case"] is not None:
      # A failure counts only when it reproduces.
      for case in [best["case"]] * 3 + [best["first"]] * 3:
        try:
          run_one(suite, case, root)
        except Violation as e:
          res["violation"] = dict(suite=suite.name, case=case, error=str(e))
          break
      else:
        res["flaky"] = dict(suite=suite.name, **best)
      if res["violation"]:
        break
    if res.get("harness_error"):
      break
  json.dump(res, open(out, "w"))


def load_check(prop):
  return importlib.import_module(f"checks.{prop.lower()}")


def suite_of(mod, name):
  for s in mod.SUITES:
    if s.name == name:
      return s
  raise KeyError(name)


def saved_cases(folder, prop):
  d = os.path.join(HERE, folder)
  out = []
  if os.path.isdir(d):
    for f in sorted(os.listdir(d)):
      if f.startswith(prop) and f.endswith(".json"):
        out.append((f[:-5], json.load(open(os.path.join(d, f)))))
  return out


def listed_findings(prop):
  """IDs of the findings of a property listed in KNOWN_FINDINGS.txt."""
  ids = {}
  for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
    if line.startswith(f"finding: property={prop} id="):
      rest = line.split(" id=", 1)[1].strip()
      id_, _, what = rest.partition(" ")
      ids[id_] = what
  return ids


def write_replay(prop, suite, case, error):
  d = os.path.join(VERIF, "replays")
  os.makedirs(d, exist_ok=True)
  h = hashlib.sha1((suite + canon(case)).encode()).hexdigest()[:10]
  path = os.path.join(d, f"{prop}-{h}.json")
  json.dump(dict(property=prop, suite=suite, case=case, error=error),
            open(path, "w"), indent=1)
  return path


def child_env():
  env = dict(os.environ)
  env.update(PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3",
             CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0", TZ="UTC",
             OMP_NUM_THREADS="1", PBT_CHILD="1")
  for k in ("PYTHONPATH", "PYTHONSTARTUP"):
    env.pop(k, None)
  return env


def main_check(prop, tier, seed):
  t0 = time.time()
  root = scratch_root()
  try:
    return _main_check(prop, tier, seed, root, t0)
  finally:
    shutil.rmtree(root, ignore_errors=True)


def _main_check(prop, tier, seed, root, t0):
  procs = []
  here = os.path.join(HERE, "run.py")
  for i in range(WORKERS):
    out = os.path.join(root, f"out{i}.json")
    wroot = os.path.join(root, f"w{i}")
    os.mkdir(wroot)
    log = open(os.path.join(root, f"log{i}"), "wb")
    cmd = [PYTHON, here, prop, "--worker", str(i), "--out", out, "--root",
           wroot, "--tier", tier, "--seed", str(seed)]
    procs.append((i, out, log.name, subprocess.Popen(
        cmd, stdout=log, stderr=log, env=child_env(), cwd="/")))

  # Saved cases: regressions of repaired defects, and the known findings.
  mod = load_check(prop)
  violation = None
  notes = []
  corpus_n = 0
  sroot = os.path.join(root, "saved")
  os.mkdir(sroot)
  for name, rec in saved_cases("corpus", prop):
    corpus_n += 1
    try:
      run_one(suite_of(mod, rec["suite"]), rec["case"], sroot)
    except Violation as e:
      violation = dict(suite=rec["suite"], case=rec["case"],
                       error=f"[saved case {name}] {e}")
      break
  for name, what in listed_findings(prop).items():
    rec = json.load(open(os.path.join(HERE, "findings", name + ".json")))
    try:
      run_one(suite_of(mod, rec["suite"]), rec["case"], sroot)
      notes.append(f"known finding {name} no longer fails")
    except Violation:
      print(f"KNOWN-FINDING: property={prop} {name}: {what}", flush=True)

  limit = time.time() + (700 if tier == "quick" else 860)
  results, errors = [], []
  for i, out, log, p in procs:
    try:
      p.wait(timeout=max(1, limit - time.time()))
    except subprocess.TimeoutExpired:
      p.kill()
      p.wait()
      notes.append(f"worker {i} ran out of time (inconclusive)")
      continue
    if os.path.exists(out):
      results.append(json.load(open(out)))
    else:
      errors.append(f"worker {i} died ({p.returncode}):\n" +
                    open(log, errors="replace").read()[-4000:])

  ev = dict(evaluations=corpus_n, distinct=set(), labels={}, samples=[],
            suites={}, skipped=0)
  for r in results:
    ev["evaluations"] += r["evaluations"]
    ev["distinct"].update(r["hashes"])
    ev["skipped"] += r["skipped"]
    ev["samples"] += r["samples"]
    for k, v in r["labels"].items():
      ev["labels"][k] = ev["labels"].get(k, 0) + v
    for k, v in r["suites"].items():
      s = ev["suites"].setdefault(k, dict(evaluations=0, nontrivial=0))
      for kk in v:
        s[kk] += v[kk]
    if r.get("harness_error"):
      errors.append("harness error: " + json.dumps(r["harness_error"]["case"]) +
                    "\n" + r["harness_error"]["trace"])
    if r.get("flaky"):
      errors.append("not reproducible: " + json.dumps(r["flaky"]))
    if r.get("violation") and (violation is None or len(canon(
        r["violation"]["case"])) < len(canon(violation["case"]))):
      if violation is None or not violation["error"].startswith("[saved"):
        violation = r["violation"]

  coverage = dict(
      evaluations=ev["evaluations"], distinct_nontrivial=len(ev["distinct"]),
      rule=mod.RULE, samples=ev["samples"][:6], suites=ev["suites"],
      labels=dict(sorted(ev["labels"].items())), saved_cases=corpus_n,
      skipped_out_of_time=ev["skipped"])
  if notes:
    coverage["notes"] = notes
  doc = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL,
             coverage=coverage,
             assumptions=getattr(mod, "ASSUMPTIONS", []),
             wall_s=round(time.time() - t0, 2),
             violations=0 if violation is None else 1)
  os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
  with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
    json.dump(doc, f, indent=1)

  if violation is not None:
    path = write_replay(prop, violation["suite"], violation["case"],
                        violation["error"])
    print(violation["error"])
    print(f"VIOLATION property={prop} replay={path}", flush=True)
    return 1
  if errors:
    print("\n".join(errors[:2])[:12000], file=sys.stderr)
    return 2
  print(f"{prop} {tier} seed={seed}: held on {ev['evaluations']} cases, "
        f"{len(ev['distinct'])} distinct non-trivial, "
        f"{doc['wall_s']} s")
  return 0


def replay(path):
  rec = json.load(open(path))
  mod = load_check(rec["property"])
  root = scratch_root()
  try:
    run_one(suite_of(mod, rec["suite"]), rec["case"], root)
  except Violation as e:
    print(e)
    print(f"VIOLATION property={rec['property']} replay={path}")
    return 1
  finally:
    shutil.rmtree(root, ignore_errors=True)
  print("held")
  return 0

"""Validates the planted bugs in /verif/seeded and runs checks against them.

  seedcheck.py validate [ID...]   patch applies, touches original lines, tests
                                  pass, demo passes without and fails with it
  seedcheck.py run [ID...] [--all-checks] [--seed N]
                                  runs the property's check on a patched copy

Works on scratch copies of /repo under /tmp, which it removes.
"""
import argparse
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
BASE = "41bc1b0"
PY = "/opt/venv/bin/python"


def sh(cmd, **kw):
  return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy_repo(root):
  dst = os.path.join(root, "repo")
  shutil.copytree("/repo", dst, symlinks=True)
  return dst


def original_lines(repo, patch):
  """Returns the number of removed lines of the base commit, and the others."""
  orig, other = 0, 0
  cur = None
  blame = {}
  for line in open(patch):
    if line.startswith("--- a/"):
      cur = line[6:].strip()
      out = sh(["git", "-C", "/repo", "blame", "-s", "HEAD", "--", cur]).stdout
      blame[cur] = [l.split()[0].lstrip("^") for l in out.splitlines()]
    elif line.startswith("@@"):
      n = int(re.match(r"@@ -(\d+)", line).group(1))
    elif line.startswith("-") and not line.startswith("---"):
      if BASE.startswith(blame[cur][n - 1][:7]):
        orig += 1
      else:
        other += 1
      n += 1
    elif line.startswith(" "):
      n += 1
  return orig, other


def run_tests(repo):
  env = dict(os.environ, PYTHONPATH=f"{repo}/python/src", PYTHONHASHSEED="0",
             PYTHONDONTWRITEBYTECODE="1", TZ="UTC", TF_CPP_MIN_LOG_LEVEL="3",
             CUDA_VISIBLE_DEVICES="")
  out = os.path.join(os.path.dirname(repo), "junit.xml")
  sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
      "-n", "2", "--continue-on-collection-errors", "--ignore=tests/ray",
      "-o", "junit_family=xunit2", f"--junitxml={out}"],
     cwd=f"{repo}/python", env=env)
  import xml.etree.ElementTree as ET
  passed = set()
  for case in ET.parse(out).getroot().iter("testcase"):
    if case.find("failure") is None and case.find("error") is None:
      passed.add(f"{case.get('classname')}::{case.get('name')}")
  stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
  return sorted(stable - passed)


def demo(bug, repo):
  """Runs the demo with the patch files taken away, from another folder."""
  with tempfile.TemporaryDirectory(prefix="demo_") as d:
    dst = os.path.join(d, "x")
    shutil.copytree(os.path.join(SEEDED, bug), dst)
    for f in ("patch.diff", "meta.json"):
      os.unlink(os.path.join(dst, f))
    return sh(["bash", os.path.join(dst, "demo.sh")], cwd=repo, timeout=300)


def validate(bug):
  patch = os.path.join(SEEDED, bug, "patch.diff")
  with tempfile.TemporaryDirectory(prefix="seed_") as root:
    repo = copy_repo(root)
    msgs = []
    orig, other = original_lines(repo, patch)
    if not orig:
      msgs.append("no original line changed")
    if other:
      msgs.append(f"{other} changed lines are of fix commits")
    r = demo(bug, repo)
    if r.returncode != 0:
      msgs.append("demo fails unpatched: " + (r.stdout + r.stderr)[-800:])
    r = sh(["git", "-C", repo, "apply", patch])
    if r.returncode:
      return bug, msgs + ["does not apply " + r.stderr]
    r = demo(bug, repo)
    if r.returncode == 0:
      msgs.append("demo passes patched")
    else:
      tail = (r.stdout + r.stderr).strip().splitlines()[-1:]
      print("   ", bug, "demo says:", tail, flush=True)
    failing = run_tests(repo)
    if failing:
      msgs.append(f"tests fail: {failing[:4]}")
    return bug, msgs


def run(bug, seed, props=None):
  meta = json.load(open(os.path.join(SEEDED, bug, "meta.json")))
  patch = os.path.join(SEEDED, bug, "patch.diff")
  res = {}
  with tempfile.TemporaryDirectory(prefix="seed_") as root:
    repo = copy_repo(root)
    sh(["git", "-C", repo, "apply", patch], check=True)
    for prop in props or [meta["property"]]:
      env = dict(os.environ, PBT_REPO=repo, VERIF_SEED=str(seed))
      r = sh(["python3", "pbt/run.py", prop, "--tier", "quick"], cwd=VERIF,
             env=env)
      viol = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
      res[prop] = (r.returncode, bool(viol), r.stdout[-300:] if r.returncode not in (0, 1) else "")
  return bug, res


if __name__ == "__main__":
  ap = argparse.ArgumentParser()
  ap.add_argument("cmd")
  ap.add_argument("ids", nargs="*")
  ap.add_argument("--all-checks", action="store_true")
  ap.add_argument("--checks")
  ap.add_argument("--seed", type=int, default=1)
  ap.add_argument("-j", type=int, default=4)
  a = ap.parse_args()
  ids = a.ids or sorted(os.listdir(SEEDED))
  if a.cmd == "validate":
    with cf.ThreadPoolExecutor(a.j) as ex:
      for bug, msgs in ex.map(validate, ids):
        print(bug, "OK" if not msgs else msgs, flush=True)
  else:
    props = None
    if a.all_checks:
      props = [f"C{i:02d}" for i in range(1, 19)]
    if a.checks:
      props = a.checks.split(",")
    for bug in ids:
      b, res = run(bug, a.seed, props)
      print(b, {p: ("CAUGHT" if v[0] == 1 and v[1] else v) for p, v in
                res.items()}, flush=True)

"""Confirms a planted bug in a scratch copy and files it under /verif/seeded.

usage: plant.py DEFINITIONS.py [ID ...]

A definition file sets BUGS = [dict(id, property, file, edits=[(old, new)],
demo=<python source>, needs, what)].  A bug is kept only if the patch applies,
the 11 stable tests pass with it, and the demonstration passes without and
fails with it.
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = "/tmp/plant-scratch"

PRELUDE = '''import math
import numpy as np
from causal_effect_bandits import arms, bandits, data, parameters, scm


class Planned(arms.VarianceEstimatorArm):
  """Reports the planned (lower, upper, estimate) triples one after another."""

  def __init__(self, name, plan, cost=1.0, log=None):
    super().__init__(name, parameters.AIPWLinearLogistic(1), lambda d: d, cost)
    self.plan, self.k, self.units, self.log = plan, 0, 0, log
    self.deltas, self.batches = [], []

  def update(self, new_data, delta):
    lo, hi, est = self.plan[min(self.k, len(self.plan) - 1)]
    self.k += 1
    self._num_pulled += 1
    self.units += len(new_data)
    self.deltas.append(delta)
    self.batches.append(np.array(new_data.rsp))
    if self.log is not None:
      self.log.append(self.name)
    self._ci, self._var_est = (lo, hi), est
    return self._ci

  def get_num_units(self):
    return self.units

  def reset(self):
    super().reset()
    self.k, self.units = 0, 0


class Source(data.DataGenerator):

  def __init__(self):
    super().__init__("source")
    self.n, self.sizes = 0, []

  def generate(self, n):
    self.sizes.append(n)
    r = np.arange(self.n, self.n + n, dtype=float)
    self.n += n
    return data.ExpData(r.reshape(-1, 1), (r % 2).astype(int), r)


'''

DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec timeout -k 5 %d /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True,
                        text=True, check=False, **kw)


def tests_pass(repo):
  env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
             PYTHONPATH=repo, OMP_NUM_THREADS="1", PYTHONHASHSEED="0")
  p = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:xdist "
         "--randomly-seed=0 --randomly-dont-reorganize", repo, env=env)
  return p.returncode == 0 and "11 passed" in p.stdout, p.stdout[-1500:]


def main():
  ns = {}
  exec(open(sys.argv[1]).read(), ns)  # pylint: disable=exec-used
  bad = 0
  for b in ns["BUGS"]:
    if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
      continue
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree("/repo", SCRATCH, symlinks=True)
    d = os.path.join(SCRATCH, ".demo")
    os.makedirs(d)
    with open(os.path.join(d, "demo.py"), "w") as f:
      f.write(PRELUDE + b["demo"].lstrip("\n"))
    with open(os.path.join(d, "demo.sh"), "w") as f:
      f.write(DEMO_SH % b.get("timeout", 120))
    clean = sh(f"bash {d}/demo.sh", SCRATCH)
    why = None
    if clean.returncode != 0:
      why = "demo fails on the unchanged tree:\n" + clean.stderr[-1500:]
    for e in b["edits"]:
      fn, old, new = e if len(e) == 3 else (b["file"],) + tuple(e)
      p = os.path.join(SCRATCH, "causal_effect_bandits", fn)
      s = open(p).read()
      n = s.count(old)
      if n != 1:
        why = why or f"{fn}: old text occurs {n} times:\n{old}"
        break
      open(p, "w").write(s.replace(old, new))
    if why is None:
      broken = sh(f"bash {d}/demo.sh", SCRATCH)
      if broken.returncode == 0:
        why = "demo passes with the patch"
      ok, tail = tests_pass(SCRATCH)
      if not ok:
        why = "tests fail with the patch:\n" + tail
    if why:
      bad += 1
      print(f"{b['id']}: REJECTED: {why}")
      continue
    out = os.path.join(V, "seeded", b["id"])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    diff = sh("git diff", SCRATCH).stdout
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    for fn in ("demo.py", "demo.sh"):
      shutil.copy(os.path.join(d, fn), out)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    with open(os.path.join(out, "meta.json"), "w") as f:
      json.dump(dict(property=b["property"], needs=b["needs"],
                     what_it_breaks=b["what"]), f, indent=1)
      f.write("\n")
    print(f"{b['id']}: kept; demo says: "
          f"{(broken.stderr.strip().splitlines() or ['?'])[-1][:150]}")
  shutil.rmtree(SCRATCH, ignore_errors=True)
  return bad


sys.exit(main())

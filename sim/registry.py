"""All checks by property id."""
import importlib

MODULES = ("bandit", "concurrent", "arm", "dataset", "causal", "paper",
           "pure", "blocks", "endtoend",
           "formula", "refusal")


class Check:
  """One property's scenario.  Subclasses define id, n, gen, run."""

  id = None
  n = {"quick": 400, "thorough": 8000}
  rule = ""
  measure = ("distinct signatures: a hash of the abstract event sequence "
             "(which component acted, sizes, outcomes) of each run")
  real = []
  stub = []
  assumptions = [
      "sampled, not exhaustive: a clean batch is evidence, not proof",
      "NumPy, SciPy and scikit-learn are trusted",
  ]

  def gen(self, rng, i, tier):
    raise NotImplementedError

  def run(self, ctx, plan):
    raise NotImplementedError

  def valid(self, plan):
    return True


_all = {}


def register(cls):
  c = cls()
  assert c.id not in _all, c.id
  _all[c.id] = c
  return cls


def load():
  if not _all:
    for m in MODULES:
      try:
        importlib.import_module("sim.scen." + m)
      except ModuleNotFoundError as e:
        if e.name != "sim.scen." + m:
          raise
  return _all


def get(prop):
  return load()[prop]

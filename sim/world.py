"""Simulated environment of a bandit: scripted arms, tagged data source."""
import math

from sim import core
from sim.core import lib

INF = math.inf

ALGS = ("uniform", "lucb", "se")


def alg_class(name):
  return {
      "uniform": lib.bandits.UniformAlgorithm,
      "lucb": lib.bandits.LUCBAlgorithm,
      "se": lib.bandits.SuccessiveEliminationAlgorithm,
  }[name]


def unit_data(ids, width=2):
  """ExpData whose every cell is a function of the unit's id."""
  np = lib.np
  ids = np.asarray(list(ids), dtype=float)
  cov = np.column_stack([ids] + [ids * (k + 2) + k for k in range(width - 1)])
  cov = cov.reshape(len(ids), width)
  return lib.data.ExpData(cov, (ids % 2).astype(int), 3 * ids + 1)


def ids_of(d, width=2, what="data"):
  """Unit ids of an ExpData made by unit_data; checks rows are intact."""
  np = lib.np
  cov = np.asarray(d.cov)
  if cov.ndim != 2 or cov.shape[1] != width:
    raise core.Violation("torn-rows", f"{what}: covariates of shape {cov.shape}")
  n = cov.shape[0]
  if len(d) != n or len(d.exp) != n or len(d.rsp) != n:
    raise core.Violation(
        "torn-rows", f"{what}: {n} covariate rows, {len(d.exp)} exposures, "
        f"{len(d.rsp)} responses, length {len(d)}")
  ids = cov[:, 0]
  ref = unit_data(ids, width)
  if not (np.array_equal(ref.cov, cov) and np.array_equal(ref.exp, d.exp) and
          np.array_equal(ref.rsp, d.rsp)):
    raise core.Violation("torn-rows", f"{what}: cells of different units mixed")
  return [int(i) for i in ids]


class NullEta:
  """A nuisance parameter that does nothing (scripted arms only)."""

  def reset(self):
    pass

  def fit(self, d):
    pass

  def has_enough_samples(self):
    return True


def make_world_classes():
  """Defines subclasses of the package's classes (after boot)."""

  class ScriptedArm(lib.arms.VarianceEstimatorArm):
    """An arm whose reports are scripted; records every unit it is given."""

    def __init__(self, world, idx, spec):
      super().__init__(self.label(world, idx), NullEta(), lib.data.get_identity_fn(),
                       spec["cost"])
      self.cost = spec["cost"]
      self.world = world
      self.idx = idx
      self.spec = spec
      self.total_updates = 0  # over the arm's life, for fault placement
      self._zero()

    def label(self, world, idx):
      return "arm" if world.plan.get("same_names") else f"arm{idx}"

    def _zero(self):
      self.k = 0
      self.attempts = 0
      self.units = []
      self.triple = (-INF, INF, None)

    def report(self, k):
      s = self.spec["script"]
      if k < len(s):
        return tuple(s[k])
      v, w = self.spec["tail"]
      w = w / (k + 1)
      return (max(v - w, 0.0) if v >= 0 else v - w, v + w, v)

    def update(self, new_data, delta):
      w = self.world
      w.ctx.tick()
      self.total_updates += 1
      self.attempts += 1    # counted even if the update fails, as by real arms
      w.update_calls += 1
      f = w.arm_fault
      exc = None
      if f and w.update_calls == f["at"]:
        exc = w.make_exc(f["kind"])
        if f["when"] == "pre":
          w.raised(exc, "arm_fault_before")
          raise exc
      ids = w.read_ids(new_data)
      self.units.extend(ids)
      self.triple = self.report(self.k)
      self.k += 1
      w.trace.append(("upd", self.idx, tuple(ids), float(delta), self.triple,
                      id(new_data)))
      w.ctx.ev("upd", self.idx, len(ids), delta, self.triple)
      if exc is not None:
        w.raised(exc, "arm_fault_after")
        raise exc
      return self.ci

    def reset(self):
      self._zero()
      self.world.trace.append(("reset", self.idx))

    def get_num_units(self):
      return len(self.units)

    @property
    def ci(self):
      return self.triple[:2]

    @property
    def var_est(self):
      return self.triple[2]

    @property
    def num_pulled(self):
      return self.attempts

    @property
    def name(self):
      return self.label(self.world, self.idx)

  class Source(lib.data.DataGenerator):
    """A data source that may fail, read short, or deliver nothing."""

    def __init__(self, world):
      super().__init__("sim source")
      self.world = world
      self.next_id = 0

    def generate(self, n_samples):
      w = self.world
      w.ctx.tick()
      w.gen_calls += 1
      f = w.gen_fault
      if f and w.gen_calls == f["at"]:
        exc = w.make_exc(f["kind"])
        w.raised(exc, "source_fault")
        raise exc
      n = int(n_samples)
      short = w.short.get(str(w.gen_calls))
      if short is None and w.gen_calls >= w.short.get("dry", w.gen_calls + 1):
        short = 0      # the source has nothing more to give
      if short is not None:
        n = min(n, short)
        w.ctx.fault("empty_read" if n == 0 else "short_read")
      ids = range(self.next_id, self.next_id + n)
      self.next_id += n
      w.trace.append(("gen", n_samples, tuple(ids)))
      w.ctx.ev("gen", n_samples, n)
      d = unit_data(ids)
      w.keep.append(d)
      return d

  return ScriptedArm, Source


class World:
  """Arms, source and dataset of one simulated deployment."""

  def __init__(self, ctx, plan):
    self.ctx = ctx
    self.plan = plan
    if not hasattr(lib, "ScriptedArm"):
      lib.ScriptedArm, lib.Source = make_world_classes()
    self.trace = []
    self.keep = []  # keeps batches alive so that ids stay distinct
    self.update_calls = 0
    self.gen_calls = 0
    self.arm_fault = None
    self.gen_fault = None
    self.short = {}
    self.exc = None
    self.arms = [lib.ScriptedArm(self, i, s) for i, s in enumerate(plan["arms"])]
    self.source = lib.Source(self)
    self.dataset = None
    if plan.get("data_len") is not None:
      self.dataset = unit_data(range(plan["data_len"]))
      self.dataset_copy = unit_data(range(plan["data_len"]))
    self.bandits = {}

  def make_exc(self, kind):
    return core.make_fault(kind)

  def raised(self, exc, kind):
    self.exc = exc
    self.trace.append(("fault",))
    self.ctx.fault(kind)

  def read_ids(self, d):
    return ids_of(d, what="batch given to an arm")

  def bandit(self, alg, upr=None):
    """The algorithm over the shared arms (constructed once, as users do)."""
    key = alg if upr is None else (alg, upr)
    if key not in self.bandits:
      c = self.cfg(upr)
      kw = dict(error_prob=c["error_prob"], error_tol=c["tol"],
                sample_limit=c["limit"], units_per_round=c["upr"])
      if c.get("confidence") != "default":
        kw["confidence"] = c["confidence"]
      self.bandits[key] = alg_class(alg)(self.arms, self.source, **kw)
    return self.bandits[key]

  def cfg(self, upr=None):
    c = self.plan["cfg"]
    return c if upr is None else dict(c, upr=upr)

  def run(self, alg, mode, faults=None, upr=None):
    """Runs once; returns a RunRecord (result or the exception seen)."""
    faults = faults or {}
    self.update_calls = 0
    self.gen_calls = 0
    self.arm_fault = faults.get("arm")
    self.gen_fault = faults.get("gen")
    self.short = faults.get("short", {})
    self.exc = None
    b = self.bandit(alg, upr)
    start = len(self.trace)
    before = [(len(a.units), a.k, a.triple) for a in self.arms]
    rec = RunRecord()
    rec.alg, rec.mode, rec.cfg, rec.K = alg, mode, self.cfg(upr), len(self.arms)
    rec.costs = [a.cost for a in self.arms]
    rec.before = before
    self.ctx.ev("run", alg, mode)
    try:
      rec.result = b.run(self.dataset) if mode == "data" else b.run()
    except core.INJECTED as e:
      rec.exc = e
    except core.StepLimit:
      rec.trace = self.trace[start:]
      raise
    rec.injected = self.exc
    rec.trace = self.trace[start:]
    rec.ups = [t for t in rec.trace if t[0] == "upd"]
    rec.gens = [t for t in rec.trace if t[0] == "gen"]
    rec.arm_objs = list(self.arms)
    self.ctx.sig(alg, mode, tuple((u[1], len(u[2])) for u in rec.ups),
                 type(rec.exc).__name__)
    return rec

  def reset(self, alg):
    self.ctx.ev("reset", alg)
    self.bandit(alg).reset()


class RunRecord:
  result = None
  exc = None
  injected = None

  def best(self):
    """Indices of the returned arms."""
    out = []
    for a in self.result.best_arm:
      hits = [i for i, x in enumerate(self.arm_objs) if x is a]
      core.expect(hits, "foreign-arm", "an arm was returned that is not in the race")
      out.append(hits[0])
    return out

  def table(self):
    """The result as plain data, arms by index."""
    r = self.result

    def by(m):
      return [[float(x) for x in m[a]] for a in self.arm_objs]
    return dict(lcb=by(r.lcb_by_arm), ucb=by(r.ucb_by_arm),
                var=by(r.var_est_by_arm), n=by(r.samples_by_arm),
                cum=[float(x) for x in r.cum_samples], best=sorted(self.best()))

"""Real arms in the simulator: unit streams, recording nuisance parameters."""
import math
import random

from sim import core
from sim.core import Violation, expect, lib

INF = math.inf

ETAS = ("aipw", "kernel", "boost", "front", "linreg", "linbin", "generic")
AIPWS = ("aipw", "kernel", "boost", "generic")
WIDTHS = AIPWS + ("front",)     # parameters with a confidence sequence


class Stream:
  """A fixed sequence of units; every unit is known by its response value.

  All numbers come from the stream's own generator, never from numpy's.
  """

  def __init__(self, seed, n, d=2, kind="cont", effect=1.0, scale=1.0,
               collinear=None, treat="mixed"):
    np = lib.np
    r = random.Random(f"stream/{seed}")
    self.n, self.d, self.kind = n, d, kind
    cov, exp, rsp = [], [], []
    seen = set()
    for i in range(n):
      if kind == "finite":
        x = [float(r.randrange(2)) for _ in range(d)]
      else:
        x = [r.gauss(0, 1) * scale for _ in range(d)]
      if collinear == "dup" and d > 1:
        x[1] = x[0]
      elif collinear == "const":
        x[-1] = 1.0
      elif collinear == "zero":
        x[-1] = 0.0
      elif collinear == "sum" and d > 2:
        x[2] = x[0] + x[1]
      p = 1 / (1 + math.exp(-0.5 * x[0] / scale))
      t = int(r.random() < p)
      if treat == "cont":
        t = r.gauss(0, 1)
      y = effect * t + sum(x) * 0.5 + r.gauss(0, 1)
      while y in seen:
        y = y + 1e-9
      seen.add(y)
      cov.append(x)
      exp.append(t)
      rsp.append(y)
    self.cov = np.array(cov, dtype=float).reshape(n, d)
    self.exp = np.array(exp, dtype=int if treat != "cont" else float)
    self.rsp = np.array(rsp, dtype=float)
    self.index = {float(y): i for i, y in enumerate(self.rsp)}

  def set_exposure(self, ids, value):
    for i in ids:
      self.exp[i] = value

  def batch(self, ids, exp_dtype=None, cov_dtype=None, rsp_dtype=None):
    """A fresh ExpData (own arrays) of the given units."""
    np = lib.np
    ids = np.array(list(ids), dtype=int)
    cov, exp, rsp = self.cov[ids].copy(), self.exp[ids].copy(), self.rsp[ids].copy()
    if exp_dtype:
      exp = exp.astype(exp_dtype)
    if cov_dtype:
      cov = cov.astype(cov_dtype)
    if rsp_dtype:
      rsp = rsp.astype(rsp_dtype)
    return lib.data.ExpData(cov, exp, rsp)

  def ids(self, d, cols=None, what="data"):
    """Unit ids in d; raises Violation when cells of units are mixed."""
    np = lib.np
    n = len(d)
    rsp, exp, cov = np.asarray(d.rsp), np.asarray(d.exp), np.asarray(d.cov)
    if not len(rsp) == len(exp) == cov.shape[0] == n:
      raise Violation("torn-rows", f"{what}: {cov.shape[0]} covariate rows, "
                      f"{len(exp)} exposures, {len(rsp)} responses, length {n}")
    out = []
    for k in range(n):
      i = self.index.get(float(rsp[k]))
      if i is None:
        raise Violation("unknown-unit", f"{what}: response {rsp[k]} belongs to "
                        "no unit that was delivered")
      out.append(i)
    want = self.cov[out].reshape(n, self.d)
    if cols is not None:
      want = want[:, cols]
    if cov.ndim == 1:
      cov = cov.reshape(n, -1)
    if not (np.array_equal(want, cov) and np.array_equal(self.exp[out], exp)):
      raise Violation("torn-rows", f"{what}: covariates or exposures of other "
                      "units")
    return out


def make_eta(kind, d, min_units=5, min_overlap=0.05, opts=None):
  """A real nuisance parameter; opts are hyperparameters of the kind."""
  p = lib.parameters
  o = opts or {}
  if kind == "aipw":
    return p.AIPWLinearLogistic(d, min_units=min_units, min_overlap=min_overlap)
  if kind == "kernel":
    return p.AIPWKernelRidgeLogistic(d, min_units=min_units,
                                     min_overlap=min_overlap)
  if kind == "boost":
    return p.AIPWKernelGradientBoosting(d, min_units=min_units,
                                        min_overlap=min_overlap)
  if kind == "front":
    return p.FrontDoorLinearFiniteZ(
        d, min_units=min_units, min_overlap=min_overlap,
        min_ratio_to_uniform=o.get("ratio", 10))
  if kind == "generic":          # the caller's own predictors
    from sklearn import linear_model  # pylint: disable=g-import-not-at-top
    return p.AIPW(d, linear_model.Ridge(alpha=o.get("alpha", 1.0)),
                  linear_model.LogisticRegression(C=o.get("c", 1.0)),
                  min_units=min_units, min_overlap=min_overlap)
  if kind == "linreg":
    return p.LinearRegressionParameter(d, l_reg=o.get("l_reg", 0.1))
  if kind == "linbin":
    return p.LinearParameterBinaryTreatment(d)
  raise core.PlanInvalid(kind)


def gen_opts(rng, kind):
  """Hyperparameters of a nuisance parameter, defaults in half of the cases."""
  if rng.random() < 0.5:
    return {}
  if kind == "front":
    return dict(ratio=rng.choice([1.5, 2, 4, 40]))
  if kind == "generic":
    return dict(alpha=rng.choice([0.01, 5.0]), c=rng.choice([0.05, 10.0]))
  if kind == "linreg":
    return dict(l_reg=rng.choice([0.01, 1.0, 5.0]))
  return {}


def min_of(kind, min_units):
  return {"linreg": 0, "linbin": 1}.get(kind, min_units)


def sufficient(kind, min_units, exp):
  """Does a fold with these exposures suffice to fit the parameter?"""
  n = len(exp)
  if kind == "linreg":
    return n >= 1
  m = min_of(kind, min_units)
  t = int(sum(1 for x in exp if x == 1))
  return t >= m and n - t >= m


class ToyEta:
  """A nuisance parameter of the simulator: memorises what it was fitted on.

  Its score is a fixed function of the unit and of the fitted units.
  """

  def __init__(self, min_units=0):
    self.min_units = min_units
    self.reset()

  def reset(self):
    self.base = None

  def fit(self, d):
    np = lib.np
    t = int(np.sum(np.asarray(d.exp) == 1))
    if t < self.min_units or len(d) - t < self.min_units or len(d) == 0:
      return
    self.base = float(np.mean(d.rsp))

  def has_enough_samples(self):
    return self.base is not None

  def calculate_score(self, d):
    return lib.np.asarray(d.rsp, dtype=float) - 0.25 * self.base + (
        2.0 * lib.np.asarray(d.exp))

  def transform(self, d):
    return lib.np.full((len(d), 1), self.base)

  def calculate_cs_width(self, delta, sub_g, rho):
    return 0.5


class RecEta:
  """Wraps a nuisance parameter; records the units of every call; may fail."""

  def __init__(self, inner, stream, cols=None):
    self.inner = inner
    self.stream = stream
    self.cols = cols
    self.log = []
    self.calls = 0
    self.fail = None      # dict(at=call number, exc=exception, when=pre|post)
    self.failed = False
    self.keep_data = False
    self.last_fit = None
    self.last_score = None

  def _hit(self, when):
    f = self.fail
    if f and not self.failed and f["when"] == when and self.calls == f["at"]:
      self.failed = True
      raise f["exc"]

  def _call(self, name, d, fn):
    self.calls += 1
    ids = None
    if d is not None:
      ids = self.stream.ids(d, self.cols, f"data given to {name}")
    self.log.append((name, ids))
    self._hit("pre")
    r = fn()
    self._hit("post")
    return r

  def fit(self, d):
    self.last_fit = d
    return self._call("fit", d, lambda: self.inner.fit(d))

  def calculate_score(self, d):
    self.last_score = d
    return self._call("score", d, lambda: self.inner.calculate_score(d))

  def transform(self, d):
    return self._call("transform", d, lambda: self.inner.transform(d))

  def calculate_cs_width(self, *a, **k):
    return self._call("width", None,
                      lambda: self.inner.calculate_cs_width(*a, **k))

  def has_enough_samples(self):
    return self.inner.has_enough_samples()

  def reset(self):
    self.log.append(("reset", None))
    self.inner.reset()

  def take(self):
    """The calls since the last take()."""
    log, self.log = self.log, []
    return log


def make_arm(spec, eta, transformer=None, cls=None):
  """A real arm from its plan entry."""
  tr = transformer or lib.data.get_identity_fn()
  if spec["arm"] == "boot":
    return lib.arms.BootstrapArm("boot", eta, tr,
                                 n_bootstraps=spec.get("n_boot", 4),
                                 stable_splits=spec["stable"])
  ci = {"CHI2": lib.arms.CIAlgorithm.CHI2, "CLT": lib.arms.CIAlgorithm.CLT,
        "FINITE": lib.arms.CIAlgorithm.FINITE_SAMPLE}[spec["ci"]]
  return lib.arms.SampleSplittingArm(
      "split", eta, tr, ci_algorithm=ci, cost=spec.get("cost", 1),
      stable_splits=spec["stable"], sub_gscale=spec.get("sub_g", 1),
      eta_sub_gscale=spec.get("eta_sub_g", 1), tau_bound=spec.get("tau", 1),
      burn_in=spec.get("burn_in", 2), rho=spec.get("rho", 0.1))


def gen_sizes(rng, n_batches=None, big=12):
  """Batch sizes, with empty, single-unit and odd batches."""
  k = n_batches or rng.choice([1, 2, 3, 4, 6, 8, 12])
  style = rng.choice(["any", "any", "ones", "big", "zeros"])
  out = []
  for _ in range(k):
    if style == "ones":
      out.append(rng.choice([1, 1, 1, 0, 2, 3]))
    elif style == "zeros":
      out.append(rng.choice([0, 0, 1, rng.randrange(2, big)]))
    elif style == "big":
      out.append(rng.randrange(big // 2, 3 * big))
    else:
      out.append(rng.choice([0, 1, 2, 3, 5, 7, rng.randrange(1, big),
                             rng.randrange(1, 2 * big)]))
  return out


def gen_arm_spec(rng, etas=None, boot=0.25, cis=("CHI2", "CLT", "FINITE"),
                 stable=None):
  eta = rng.choice(etas or ETAS + ("toy",))
  spec = dict(arm="boot" if rng.random() < boot else "split", eta=eta,
              d=rng.choice([1, 2, 3]), min_units=rng.choice([2, 2, 3, 5]),
              overlap=rng.choice([0.05, 0.1, 0.25]),
              stable=rng.random() < 0.65 if stable is None else stable)
  spec["opts"] = gen_opts(rng, eta)
  if spec["arm"] == "boot":
    spec["n_boot"] = rng.choice([1, 2, 3, 5])
  else:
    c = [x for x in cis if x != "FINITE" or eta in
         WIDTHS + ("toy",)]
    spec.update(ci=rng.choice(c), sub_g=rng.choice([0.1, 0.5, 1, 2]),
                eta_sub_g=rng.choice([0.5, 1]), tau=rng.choice([0.5, 1, 2]),
                burn_in=rng.choice([2, 2, 5, 20]), rho=rng.choice([0.1, 1]))
  return spec


def valid_spec(s):
  ok = s["arm"] in ("boot", "split") and s["d"] in (1, 2, 3, 4)
  ok = ok and s["eta"] in ETAS + ("toy",) and s["min_units"] >= 2
  ok = ok and isinstance(s["stable"], bool) and 0 < s["overlap"] <= 0.25
  ok = ok and all(v > 0 for v in s.get("opts", {}).values())
  ok = ok and s.get("opts", {}).get("ratio", 2) > 1
  if s["arm"] == "boot":
    return ok and s["n_boot"] >= 1
  ok = ok and s["ci"] in ("CHI2", "CLT", "FINITE")
  ok = ok and s["sub_g"] > 0 and s["eta_sub_g"] > 0 and s["tau"] > 0
  ok = ok and s["burn_in"] >= 2 and s["rho"] > 0
  return ok and not (s["ci"] == "FINITE" and s["eta"] in ("linreg", "linbin"))


def stream_for(spec, seed, n, **kw):
  kind = "finite" if spec["eta"] == "front" else "cont"
  return Stream(seed, n, spec["d"], kind, **kw)


def eta_for(spec):
  if spec["eta"] == "toy":
    return ToyEta(spec["min_units"])
  return make_eta(spec["eta"], spec["d"], spec["min_units"], spec["overlap"],
                  spec.get("opts"))


def enough(spec, exp):
  if spec["eta"] == "toy":
    t = sum(1 for x in exp if x == 1)
    return t >= spec["min_units"] and len(exp) - t >= spec["min_units"]
  return sufficient(spec["eta"], spec["min_units"], exp)


def state(arm):
  """Everything an arm shows."""
  return dict(ci=tuple(arm.ci), var=arm.var_est, ate=arm.ate,
              pulls=arm.num_pulled, units=arm.get_num_units())


def same_num(a, b, rtol=1e-9, atol=1e-12):
  if a is None or b is None:
    return a is b
  a, b = float(a), float(b)
  if math.isnan(a) or math.isnan(b):
    return math.isnan(a) and math.isnan(b)
  if math.isinf(a) or math.isinf(b):
    return a == b
  return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def same_state(a, b, rtol=1e-9, atol=1e-12):
  return (a["pulls"] == b["pulls"] and a["units"] == b["units"] and
          same_num(a["var"], b["var"], rtol, atol) and
          same_num(a["ate"], b["ate"], rtol, atol) and
          all(same_num(x, y, rtol, atol) for x, y in zip(a["ci"], b["ci"])))

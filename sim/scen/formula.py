"""Scores and bootstrap intervals against independent computations: C40, C41."""
import copy
import math
import random

from sim import core, lab
from sim.core import expect, lib
from sim.registry import Check, register
from sim.scen.pure import gen_gaps

QUERIES = ("fitted", "fitted", "fresh", "fresh", "one", "far", "ones", "zeros")


# -- the models, computed from scratch


def ridge(x, y, alpha, intercept):
  """Weights and intercept of a ridge regression, by the normal equations."""
  np = lib.np
  x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
  mx = x.mean(axis=0) if intercept else np.zeros(x.shape[1])
  my = y.mean() if intercept else 0.0
  xc, yc = x - mx, y - my
  w = np.linalg.solve(xc.T @ xc + alpha * np.identity(x.shape[1]), xc.T @ yc)
  return w, my - mx @ w


def rbf(a, b, gamma):
  np = lib.np
  d2 = ((a[:, None, :] - b[None, :, :])**2).sum(axis=2)
  return np.exp(-gamma * d2)


class Logistic:
  """L2-penalised logistic regression by Newton's method.

  Knows how far a solver with gradient tolerance 1e-4 may end from the optimum.
  """

  def __init__(self, x, t, c):
    np = lib.np
    x = np.asarray(x, dtype=float)
    n, d = x.shape
    a = np.c_[x, np.ones(n)]
    pen = np.diag([1 / (c * n)] * d + [0.0])
    w = np.zeros(d + 1)
    loss = lambda w: (np.mean(np.logaddexp(0, a @ w) - t * (a @ w)) +
                      0.5 * w @ pen @ w)
    for _ in range(200):
      p = 1 / (1 + np.exp(-np.clip(a @ w, -500, 500)))
      g = a.T @ (p - t) / n + pen @ w
      h = (a * (p * (1 - p))[:, None]).T @ a / n + pen
      h = h + 1e-14 * np.identity(d + 1)
      if np.abs(g).max() < 1e-11:
        break
      step = np.linalg.solve(h, g)
      s, f0 = 1.0, loss(w)
      while loss(w - s * step) > f0 - 1e-4 * s * (g @ step) and s > 1e-6:
        s /= 2
      w = w - s * step
    self.w, self.h, self.g = w, h, np.abs(g).max()

  def bounds(self, x):
    """Lower and upper probability of treatment for every row of x."""
    np = lib.np
    a = np.c_[np.asarray(x, dtype=float), np.ones(len(x))]
    inv = np.linalg.inv(self.h)
    reach = np.sqrt(np.maximum(np.einsum("ij,jk,ik->i", a, inv, a), 0))
    lam = max(np.linalg.eigvalsh(self.h).min(), 1e-12)
    slack = 4e-4 * math.sqrt(len(self.w)) / math.sqrt(lam) * reach + 1e-4
    lg = a @ self.w
    sig = lambda v: 1 / (1 + np.exp(-np.clip(v, -500, 500)))
    return sig(lg - slack), sig(lg + slack)


def table_of(exp, cov, ratio):
  """The smoothed table P(z | x): {x: {z: p}} and the support."""
  rows = {}
  for x, z in zip(exp, cov):
    rows.setdefault(int(x), []).append(tuple(float(v) for v in z))
  sup = sorted({z for r in rows.values() for z in r})
  low = 1 / len(sup) / ratio
  if low > 1:
    low = 0.2
  out = {}
  for x, r in rows.items():
    f = {z: r.count(z) / len(r) for z in sup}
    if min(f.values()) < low:
      excess = sum(max(v - low, 0) for v in f.values())
      scale = (1 - len(sup) * low) / excess if excess > 0 else 0
      f = {z: low + scale * max(v - low, 0) for z, v in f.items()}
    out[x] = f
  return out, sup


class Reference:
  """What a nuisance parameter fitted on d must score, computed from scratch."""

  def __init__(self, p, cov, exp, rsp):
    self.p = p
    self.cov, self.exp, self.rsp = cov, exp.astype(float), rsp
    self.o = p["opts"] or {}
    getattr(self, "fit_" + p["eta"])()

  def xz(self, exp, cov):
    return lib.np.c_[exp, cov]

  def fit_aipw(self):
    w, b = ridge(self.xz(self.exp, self.cov), self.rsp, 1.0, False)
    self.mu = lambda x, z: self.xz(x, z) @ w + b
    self.prob = Logistic(self.cov, self.exp, 1.0).bounds

  def fit_generic(self):
    w, b = ridge(self.xz(self.exp, self.cov), self.rsp,
                 self.o.get("alpha", 1.0), True)
    self.mu = lambda x, z: self.xz(x, z) @ w + b
    self.prob = Logistic(self.cov, self.exp, self.o.get("c", 1.0)).bounds

  def kernel_mu(self):
    np = lib.np
    a = self.xz(self.exp, self.cov)
    gamma = 1 / a.shape[1]
    dual = np.linalg.solve(rbf(a, a, gamma) + np.identity(len(a)), self.rsp)
    self.mu = lambda x, z: rbf(self.xz(x, z), a, gamma) @ dual

  def fit_kernel(self):
    self.kernel_mu()
    self.prob = Logistic(self.cov, self.exp, 1.0).bounds

  def fit_boost(self):
    import sklearn.ensemble  # pylint: disable=g-import-not-at-top
    self.kernel_mu()
    m = sklearn.ensemble.GradientBoostingClassifier(
        n_estimators=5, learning_rate=1.0, max_depth=2, random_state=0)
    m.fit(self.cov, self.exp)

    def prob(z):
      q = m.predict_proba(z)[:, 1]
      return q, q
    self.prob = prob

  def fit_linbin(self):
    t = self.exp == 1
    w1, b1 = ridge(self.cov[t], self.rsp[t], 1.0, True)
    w0, b0 = ridge(self.cov[~t], self.rsp[~t], 1.0, True)
    self.effect = lambda z: z @ w1 + b1 - z @ w0 - b0

  def fit_linreg(self):
    np = lib.np
    a = self.xz(self.exp, self.cov)
    self.row = np.linalg.inv(a.T @ a + self.o.get("l_reg", 0.1) * np.identity(
        a.shape[1]))[0] * len(a)

  def fit_front(self):
    np = lib.np
    w, b = ridge(self.xz(self.exp, self.cov), self.rsp, 1.0, True)
    self.w, self.b = [float(v) for v in w], float(b)
    self.q = float(np.clip(self.exp.mean(), self.p["overlap"],
                           1 - self.p["overlap"]))
    self.table, self.sup = table_of(self.exp, self.cov, self.o.get("ratio", 10))

  def score(self, cov, exp, rsp):
    """Lower and upper score of every unit."""
    np = lib.np
    kind, exp = self.p["eta"], exp.astype(float)
    if kind == "linbin":
      s = self.effect(cov)
      return s, s
    if kind == "linreg":
      s = (self.xz(exp, cov) @ self.row) * rsp
      return s, s
    if kind == "front":
      s = np.array([self.front(z, x, y) for z, x, y in zip(
          cov.tolist(), exp.tolist(), rsp.tolist())])
      return s, s
    n, lo = len(cov), self.p["overlap"]
    diff = self.mu(np.ones(n), cov) - self.mu(np.zeros(n), cov)
    res = rsp - self.mu(exp, cov)
    both = []
    for q in self.prob(cov):
      q = np.clip(q, lo, 1 - lo)
      both.append(diff + res * (exp / q - (1 - exp) / (1 - q)))
    return np.minimum(*both), np.maximum(*both)

  def front(self, z, x, y):
    lo = self.p["overlap"]
    mu = lambda x, z: self.b + self.w[0] * x + sum(
        a * b for a, b in zip(self.w[1:], z))
    raw = lambda x, z: self.table.get(int(x), {}).get(tuple(z), 0.0)
    cut = lambda v: min(max(v, lo), 1 - lo)
    q = self.q
    ave = lambda z: q * mu(1, z) + (1 - q) * mu(0, z)
    f1 = sum(mu(x, s) * (raw(1, s) - raw(0, s)) for s in self.sup)
    f3 = sum(raw(x, s) * ave(s) for s in self.sup)
    w = x / q - (1 - x) / (1 - q)
    return ((y - mu(x, z)) * (cut(raw(1, z)) - cut(raw(0, z))) / cut(raw(x, z))
            + f1 + w * (ave(z) - f3))


@register
class C40(Check):
  id = "C40"
  real = ["fit and calculate_score of every nuisance parameter, TabularCPD, "
          "scikit-learn's ridge, kernel ridge, logistic and boosting models"]
  stub = ["unit streams", "thread schedule"]
  n = {"quick": 1500, "thorough": 40000}
  rule = ("one run = a nuisance parameter with a history of sufficient, "
          "insufficient, refused, interrupted and concurrent fits and resets; "
          "after each, scores of fitted, new, single, far and one-armed units "
          "are compared with models and influence functions computed from "
          "scratch (normal equations, Newton's method, counting) on the last "
          "sufficient data; non-trivial = a query after more than one fit, a "
          "fault or a preemption")

  def gen(self, rng, i, tier):
    eta = rng.choice(lab.ETAS + ("front", "aipw"))
    ops = []
    for _ in range(rng.choice([1, 2, 3, 5])):
      ops.append(dict(
          op=rng.choice(["fit", "fit", "fit", "few", "wrong", "cut", "reset",
                         "conc", "other"]),
          seed=rng.randrange(10**6), n=rng.choice([12, 25, 60, 150]),
          scale=rng.choice([1.0, 1.0, 0.1, 5.0]),
          effect=rng.choice([0.0, 1.0, -3.0]),
          exp=rng.choice(["int", "int", "float", "int8", "bool"]),
          cov=rng.choice(["same", "same", "int"]),
          collinear=rng.choice([None, None, None, "dup", "const"]),
          tilt=rng.choice([None, None, "low", "high", "steep"]),
          line=rng.randrange(1, 45), gaps=gen_gaps(rng, 8, 14),
          q=[rng.choice(QUERIES) for _ in range(rng.choice([1, 2, 3]))]))
    return dict(eta=eta, d=rng.choice([1, 2, 3]), min_units=rng.choice([1, 2, 5]),
                overlap=rng.choice([0.01, 0.05, 0.1, 0.25, 0.45]),
                opts=lab.gen_opts(rng, eta), ops=ops)

  def valid(self, p):
    return p["eta"] in lab.ETAS and p["d"] in (1, 2, 3) and (
        p["min_units"] >= 1 and 0 < p["overlap"] < 0.5) and all(
            o["n"] >= 12 and o["scale"] > 0 and o["q"] for o in p["ops"])

  def new(self, p):
    return lab.make_eta(p["eta"], p["d"], p["min_units"], p["overlap"],
                        p["opts"])

  def units(self, p, o, salt=0, few=False, n=None):
    kind = "finite" if p["eta"] == "front" else "cont"
    n = n or o["n"]
    s = lab.Stream(o["seed"] + 7919 * salt, n, p["d"], kind, effect=o["effect"],
                   scale=o["scale"], collinear=o["collinear"] if not salt
                   else None)
    if o["cov"] == "int" and kind == "cont":
      s.cov = lib.np.round(s.cov)
    r = random.Random(f"tilt/{o['seed']}/{salt}")
    for i in range(n):
      if o["tilt"] in ("low", "high"):
        s.exp[i] = (r.random() < 0.07) == (o["tilt"] == "low")
      elif o["tilt"] == "steep":
        s.exp[i] = (s.cov[i, 0] > 0) == (r.random() < 0.93)
    if few:
      s.exp[:] = o["seed"] % 2
    return s

  def data(self, s, o, p):
    kw = {}
    if o["exp"] != "int":
      kw["exp_dtype"] = o["exp"]
    if p["eta"] != "front" and o["cov"] == "int":
      kw["cov_dtype"] = int
    if o["exp"] == "bool":   # differences of booleans are not defined
      kw["exp_dtype"] = "int8"
    return s.batch(range(s.n), **kw)

  def run(self, ctx, p):
    np = lib.np
    eta = self.new(p)
    ref, fits = None, 0
    known = True     # False between a fit that was cut off and the next one
    for o in p["ops"]:
      kind = o["op"]
      s = self.units(p, o, few=kind == "few")
      good = lab.sufficient(p["eta"], p["min_units"], list(s.exp))
      ctx.tick()
      ctx.ev(kind, s.n, good)
      ctx.sig(kind, s.n, good, p["eta"])
      if kind == "reset":
        eta.reset()
        ref, known = None, True
        continue
      if kind == "wrong":
        if p["eta"] == "linreg":
          continue
        w = lab.Stream(o["seed"], s.n, p["d"] + 1)
        try:
          eta.fit(w.batch(range(w.n)))
        except ValueError:
          ctx.fault("refused_fit")
          ctx.nontrivial = True
        else:
          expect(False, "not-refused", f"{p['eta']}: data of another width "
                 "was accepted")
      elif kind == "cut":
        with core.CrashAtLine(ctx, o["line"]) as cr:
          try:
            eta.fit(self.data(s, o, p))
          except core.INJECTED:
            pass
        if cr.fired:
          ctx.fault("interrupt_at_line")
          ctx.sig("cut", cr.where)
          ctx.nontrivial = True
          known = False
          continue
        if good:
          ref, known = self.reference(p, s), True
      elif kind == "other":   # a second parameter of the same kind
        other = self.new(p)
        other.fit(self.data(s, o, p))
        if good and fits:
          ctx.nontrivial = True
      elif kind == "conc":
        twin, s2 = self.new(p), self.units(p, o, 1)
        sched = core.Scheduler(ctx, o["gaps"])
        sched.spawn(lambda: eta.fit(self.data(s, o, p)), 1)
        sched.spawn(lambda: (twin.fit(self.data(s2, o, p)),
                             twin.has_enough_samples() and
                             twin.calculate_score(self.data(s2, o, p))), 2)
        for t in sched.run():
          if t.exc is not None:
            raise t.exc
        if sched.switches:
          ctx.nontrivial = True
          ctx.probe("preemptions", sched.switches)
        if good:
          ref, known = self.reference(p, s), True
        good2 = lab.sufficient(p["eta"], p["min_units"], list(s2.exp))
        if good2:
          self.ask(ctx, p, o, twin, self.reference(p, s2), s2, "fitted beside")
      else:
        eta.fit(self.data(s, o, p))
        if good:
          ref, known = self.reference(p, s), True
        if not good:
          ctx.fault("insufficient_fit")
      fits += 1
      if not known:
        continue
      expect(bool(eta.has_enough_samples()) == (ref is not None), "fitted-state",
             lambda: f"{p['eta']}: has_enough_samples is "
             f"{eta.has_enough_samples()} after {kind}")
      if ref is not None:
        ctx.nontrivial = ctx.nontrivial or fits > 1
        self.ask(ctx, p, o, eta, ref, s, kind)

  def reference(self, p, s):
    return Reference(p, s.cov, s.exp, s.rsp)

  def ask(self, ctx, p, o, eta, ref, s, how):
    np = lib.np
    for k, q in enumerate(o["q"]):
      if q == "fitted" and how != "few":
        u = s
      else:
        u = self.units(p, o, 2 + k, n=1 if q == "one" else 17)
        if q == "far":
          u.cov = u.cov * 6 + 2
        if q in ("ones", "zeros"):
          u.exp[:] = q == "ones"
      got = np.asarray(eta.calculate_score(self.data(u, o, p)), dtype=float)
      lo, hi = ref.score(u.cov, u.exp, u.rsp)
      expect(got.shape == (u.n,), "shape",
             lambda: f"{p['eta']}: {u.n} units give scores of shape {got.shape}")
      tol = 1e-6 * (1 + np.abs(lo) + np.abs(hi) + np.abs(u.rsp)) * (
          1 + np.abs(u.cov).max())
      bad = ~((got >= lo - tol) & (got <= hi + tol))
      expect(not bad.any(), "not-the-formula",
             lambda: f"{p['eta']} ({q} after {how}): unit {int(bad.argmax())} "
             f"scores {got[bad.argmax()]}, its formula gives "
             f"[{lo[bad.argmax()]}, {hi[bad.argmax()]}]")
      ctx.ev("score", q, repr(np.round(got[:3], 3)))
      ctx.probe("scores", u.n)


# --------------------------------------------------------------------------


class Heard(lab.RecEta):
  """Records the units of every call, and what was returned."""

  def calculate_score(self, d):
    r = super().calculate_score(d)
    self.log[-1] = ("score", self.log[-1][1], lib.np.array(r, dtype=float))
    return r

  def take(self):
    log = list(self.log)
    self.log.clear()
    return log

  def __deepcopy__(self, memo):
    """A copy reports to the same log."""
    new = Heard(copy.deepcopy(self.inner, memo), self.stream, self.cols)
    new.log, new.fail = self.log, self.fail
    return new


@register
class C41(Check):
  id = "C41"
  real = ["BootstrapArm, ExpData, nuisance parameters"]
  stub = ["unit streams", "recording wrapper around the parameter",
          "random numbers"]
  n = {"quick": 2000, "thorough": 60000}
  rule = ("one run = a bootstrap arm given a history of batches at several "
          "error levels, with resets, failing parameter calls and interrupts "
          "at arbitrary lines; after each successful update the recorded refits "
          "must partition the fitting fold and the interval be the percentiles "
          "of their variances; non-trivial = a fault, a reset or several "
          "updates with a finite interval")

  def gen(self, rng, i, tier):
    spec = lab.gen_arm_spec(rng, boot=1)
    spec["n_boot"] = rng.choice([0, 1, 2, 3, 5, 9])
    ops = []
    for _ in range(rng.choice([1, 2, 4, 7])):
      ops.append(dict(op=rng.choice(["up", "up", "up", "up", "reset", "cut",
                                     "fail"]),
                      n=rng.choice([0, 1, 2, 7, 12, 20, 45, 90, 250]),
                      delta=rng.choice([0.01, 0.05, 0.1, 0.3, 0.5, 0.9]
                                       if spec["n_boot"] else [0.1, 0.3, 0.9]),
                      line=rng.randrange(1, 400), at=rng.randrange(1, 14),
                      when=rng.choice(["pre", "post"]),
                      exc=core.fault_kind(rng)))
    return dict(spec=spec, ops=ops, seed=rng.randrange(10**6),
                np_seed=rng.randrange(10**6))

  def valid(self, p):
    s = dict(p["spec"], n_boot=p["spec"]["n_boot"] or 1)
    return lab.valid_spec(s) and s["arm"] == "boot" and all(
        o["n"] >= 0 and 0.01 <= o["delta"] < 1 for o in p["ops"])

  def run(self, ctx, p):
    np = lib.np
    spec = p["spec"]
    st = lab.stream_for(spec, p["seed"], sum(o["n"] for o in p["ops"]))
    eta = Heard(lab.eta_for(spec), st)
    arm = lab.make_arm(spec, eta)
    np.random.seed(p["np_seed"])
    at, mine, done = 0, [], 0
    for o in p["ops"]:
      ctx.tick()
      if o["op"] == "reset":
        arm.reset()
        mine = []
        eta.take()
        ctx.nontrivial = True
        continue
      ids = list(range(at, at + o["n"]))
      at += o["n"]
      batch = st.batch(ids)
      eta.take()
      ok = True
      if o["op"] == "cut":
        with core.CrashAtLine(ctx, o["line"]) as cr:
          try:
            r = arm.update(batch, o["delta"])
          except core.INJECTED:
            ok = False
            ctx.fault("interrupt_at_line")
        ctx.sig("cut", cr.where)
      elif o["op"] == "fail":
        eta.calls, eta.failed = 0, False
        eta.fail = dict(at=o["at"], exc=core.make_fault(o["exc"]),
                        when=o["when"])
        try:
          r = arm.update(batch, o["delta"])
        except core.INJECTED:
          ok = False
          ctx.fault("parameter_failure")
        eta.fail = None
      else:
        r = arm.update(batch, o["delta"])
      if not ok:
        ctx.nontrivial = True
        if arm.get_num_units() == len(mine) + len(ids):
          mine = mine + ids
        continue
      mine = mine + ids
      done += self.judge(ctx, p, o, arm, eta.take(), r, mine)
    ctx.nontrivial = ctx.nontrivial or done > 1

  def judge(self, ctx, p, o, arm, log, r, mine):
    np = lib.np
    fits = [sorted(e[1]) for e in log if e[0] == "fit"]
    if not fits:
      return 0
    f0 = max(fits, key=len)
    f1 = sorted(set(mine) - set(f0))
    expect(fits[0] == f0, "first-fit",
           lambda: f"the first fit used {len(fits[0])} units, a later one "
           f"{len(f0)}")
    cur, last, samples, main = None, False, [], []
    ins = []
    for e in log:
      if e[0] == "fit":
        cur = sorted(e[1])
      elif e[0] == "score" and e[1]:
        u = sorted(e[1])
        if u == f1:
          expect(cur == f0, "estimated-by-a-refit",
                 "the scoring fold was scored by a bootstrap refit")
          main.append(e[2])
        else:
          expect(not set(u) & set(f1), "scoring-fold-in-bootstrap",
                 "units of the scoring fold took part in a bootstrap")
          both = sorted(cur + u)
          expect(both == f0, "not-a-partition",
                 lambda: f"a refit on {len(cur)} units and {len(u)} held-out "
                 f"units do not partition the fitting fold of {len(f0)}")
          samples.append(e[2])
          ins.append(len(cur))
    finite = bool(main)
    ctx.ev("update", len(f0), len(f1), len(samples), repr(tuple(
        round(float(v), 6) for v in arm.ci)))
    ctx.sig(len(f0), len(f1), len(samples))
    expect(tuple(arm.ci) == tuple(r), "returned-interval",
           "update returned another interval than the arm shows")
    if not finite:
      expect(tuple(arm.ci) == (0, math.inf), "not-vacuous",
             lambda: f"interval {arm.ci} although nothing was scored")
      return 0
    s = main[-1]
    expect(lab.same_num(arm.ate, s.mean()) and lab.same_num(arm.var_est, s.var()),
           "estimates", lambda: f"effect {arm.ate} and variance {arm.var_est}, "
           f"the scores give {s.mean()} and {s.var()}")
    want = p["spec"]["n_boot"] or math.ceil(4 / o["delta"])
    expect(len(samples) <= want, "too-many",
           f"{len(samples)} bootstraps, {want} were asked for")
    # with the share of units that the refits use, no part is ever empty
    share = min(sum(ins) / max(len(ins) * len(f0), 1) + 0.2, 1)
    if want >= 2 and ins and -len(f0) * math.log(share) > 33:
      expect(len(samples) == want, "too-few",
             f"{len(samples)} bootstraps, {want} were asked for")
    if not samples:
      expect(tuple(arm.ci) == (0, math.inf), "not-vacuous",
             lambda: f"interval {arm.ci} without a bootstrap")
      return 0
    b = sorted(float(v.var()) for v in samples)
    n = len(b)
    half = o["delta"] / 2 * n    # rounding may decide next to an integer
    lo = {b[max(min(math.floor(half + e), n - 1), 0)] for e in (-1e-9, 1e-9)}
    hi = {b[max(min(math.ceil(n - half + e), n), 1) - 1]
          for e in (-1e-9, 1e-9)}
    expect(any(lab.same_num(arm.ci[0], v) for v in lo) and
           any(lab.same_num(arm.ci[1], v) for v in hi),
           "not-the-percentiles", lambda: f"interval {arm.ci} at level "
           f"{o['delta']}, the {n} bootstrap variances {b} give ({lo}, {hi})")
    ctx.probe("bootstrap intervals")
    return 1

"""Causal models: estimates (C20), sampling (C23), interventions (C24)."""
import math
import os
import random
import sys

from sim import core, lab
from sim.core import Violation, expect, lib
from sim.registry import Check, register
from sim.world import ALGS, alg_class


# -- truth by enumeration ----------------------------------------------------


def sig(x):
  return 1 / (1 + math.exp(-x))


class Truth:
  """Effect, variance of the score, and variance of its squared deviation.

  The score is a mixture of a + c * N(0, s2) with probability p.
  """

  def __init__(self, tau, atoms):
    self.tau = tau
    self.var = sum(p * (a * a + c * c * s2) for p, a, c, s2 in atoms)
    m4 = sum(p * (a**4 + 6 * a * a * c * c * s2 + 3 * c**4 * s2 * s2)
             for p, a, c, s2 in atoms)
    self.var2 = max(m4 - self.var**2, 0.0)


def backdoor_truth(p, e1, e0, tau):
  """AIPW with constant effect, unit noise: score - tau = +-eps / e."""
  atoms = []
  for pz, e in ((p, e1), (1 - p, e0)):
    atoms.append((pz * e, 0.0, 1 / e, 1.0))
    atoms.append((pz * (1 - e), 0.0, 1 / (1 - e), 1.0))
  return Truth(tau, atoms)


def aipw_score(mu, e):
  """The back-door score with the given nuisance functions."""
  def score(d, cols):
    np = lib.np
    z = np.asarray(d.cov, dtype=float)[:, cols]
    x, y = np.asarray(d.exp, dtype=float), np.asarray(d.rsp, dtype=float)
    m1, m0, ez = mu(z, 1.0), mu(z, 0.0), e(z)
    m = np.where(x == 1, m1, m0)
    return m1 - m0 + (y - m) * (x / ez - (1 - x) / (1 - ez))
  return score


def front_score(pu, gx, vals, zs, pz, alpha):
  """The front-door score with the true nuisance functions."""
  px1 = pu * gx[1] + (1 - pu) * gx[0]
  mu_u = [pu * (1 - gx[1]) / (1 - px1), pu * gx[1] / px1]
  index = {tuple(float(a) for a in v): k for k, v in enumerate(vals)}

  def score(d, cols):
    np = lib.np
    cov = np.asarray(d.cov, dtype=float)[:, cols]
    out = []
    mu = lambda k, x: zs[k] + alpha * mu_u[x]
    both = lambda k: px1 * mu(k, 1) + (1 - px1) * mu(k, 0)
    for z, x, y in zip(cov, np.asarray(d.exp), np.asarray(d.rsp)):
      x = int(x)
      k = index[tuple(float(a) for a in z)]
      f1 = sum(mu(j, x) * (pz[1][j] - pz[0][j]) for j in range(len(zs)))
      f3 = sum(pz[x][j] * both(j) for j in range(len(zs)))
      w = 1 / px1 if x else -1 / (1 - px1)
      out.append((y - mu(k, x)) * (pz[1][k] - pz[0][k]) / pz[x][k] + f1 +
                 w * (both(k) - f3))
    return np.array(out)
  return score


HEAVY = ((.9, .25), (.1, 25.0))    # (probability, variance) of the noise


def heavy_noise(n):
  np = lib.np
  big = np.random.random(n) < HEAVY[1][0]
  return np.random.normal(size=n) * np.where(
      big, math.sqrt(HEAVY[1][1]), math.sqrt(HEAVY[0][1]))


def linear_truth(norm, tau, noise=((1.0, 1.0),)):
  """AIPW on the linear generator: propensity sigmoid of N(0, norm^2)."""
  atoms = []
  xs = [-6 + 12 * k / 400 for k in range(401)]
  ws = [math.exp(-x * x / 2) for x in xs]
  tot = sum(ws)
  for x, w in zip(xs, ws):
    e = sig(norm * x)
    for q, s2 in noise:
      atoms.append((q * w / tot * e, 0.0, 1 / e, s2))
      atoms.append((q * w / tot * (1 - e), 0.0, 1 / (1 - e), s2))
  return Truth(tau, atoms)


def frontdoor_truth(pu, gx, zs, pz, gamma, alpha):
  """Front-door: U ~ B(pu), X ~ B(gx[u]), Z in zs ~ pz[x], Y = gz + aU + N.

  zs[k] is the value of gamma . z for support point k.
  """
  px = [0.0, 0.0]
  pxu = [[0.0, 0.0], [0.0, 0.0]]
  for u, q in ((1, pu), (0, 1 - pu)):
    for x in (0, 1):
      pxu[x][u] = q * (gx[u] if x else 1 - gx[u])
      px[x] += pxu[x][u]
  mu_u = [pxu[x][1] / px[x] for x in (0, 1)]
  s2 = [1 + alpha**2 * m * (1 - m) for m in mu_u]
  mu = lambda k, x: zs[k] + alpha * mu_u[x]
  f1 = sum(zs[k] * (pz[1][k] - pz[0][k]) for k in range(len(zs)))
  tau = f1
  atoms = []
  for x in (0, 1):
    w = 1 / px[1] if x else -1 / px[0]
    f3 = sum(pz[x][k] * (px[1] * mu(k, 1) + px[0] * mu(k, 0))
             for k in range(len(zs)))
    for k in range(len(zs)):
      f2 = px[1] * mu(k, 1) + px[0] * mu(k, 0)
      a = w * (f2 - f3)
      c = (pz[1][k] - pz[0][k]) / pz[x][k]
      atoms.append((px[x] * pz[x][k], a, c, s2[x]))
  del gamma
  return Truth(tau, atoms)


# -- models --------------------------------------------------------------------


def make_model(m):
  """(generator, number of covariate columns, arms: kind, columns, truth)."""
  np = lib.np
  r = random.Random(f"model/{m['seed']}")
  kind = m["model"]
  if kind in ("backdoor", "frontdoor"):
    st = np.random.get_state()
    np.random.seed(m["seed"] % 2**32)
    if kind == "backdoor":
      g, q = lib.example_scm.back_door_scm()
      t = backdoor_truth(q["mu_z"], .5 + q["alpha"], .5, q["tau"])
      score = aipw_score(lambda z, x: q["tau"] * x + q["beta"] * z[:, 0],
                         lambda z: .5 + q["alpha"] * z[:, 0])
      arms = [("back", [0], t, True, score)]
    else:
      g, q = lib.example_scm.frontdoor_scm()
      be = sig(q["beta"])
      gx, pz = [.5, sig(q["alpha_1"])], [[.5, .5], [1 - be, be]]
      t = frontdoor_truth(q["mu_u"], gx, [0, q["gamma"]], pz, q["gamma"],
                          q["alpha_2"])
      expect(abs(t.tau - q["tau"]) < 1e-9, "example-tau",
             lambda: f"front-door example: tau {q['tau']}, by enumeration "
             f"{t.tau}")
      score = front_score(q["mu_u"], gx, [[0], [1]], [0, q["gamma"]], pz,
                          q["alpha_2"])
      # U is an ordinary confounder: its adjustment is valid as well, but the
      # response model of the back-door arm has no intercept.
      arms = [("front", [1], t, True, score),
              ("back", [0], Truth(t.tau, [(1, 0, 4 * q["gamma"], 1)]), False,
               None)]
    np.random.set_state(st)
    return g, arms
  if kind in ("linear", "steep", "heavy"):
    d = m["d"]
    beta = np.array([r.uniform(-1, 1) for _ in range(d)])
    gamma = np.array([r.uniform(-.4, .4) / math.sqrt(d) for _ in range(d)])
    if kind == "steep":
      gamma = gamma * .85 / np.linalg.norm(gamma)
    tau = r.uniform(-3, 3)
    heavy = kind == "heavy"
    g = lib.data.LinearDataGenerator(
        "linear", d, beta, tau, gamma=gamma,
        **(dict(noise_model=heavy_noise) if heavy else {}))
    t = linear_truth(float(np.linalg.norm(gamma)), tau,
                     HEAVY if heavy else ((1.0, 1.0),))
    score = aipw_score(lambda z, x: tau * x + z.dot(beta),
                       lambda z: 1 / (1 + np.exp(-z.dot(gamma))))
    # steep: the tails of 1/e make the sample variance converge too slowly
    return g, [("back", list(range(d)), t, kind != "steep", score)]
  if kind in ("mis_response", "mis_propensity"):
    return make_misspecified(r, kind)
  # own front-door model with covariates (U, Z1..Zd), Z finite
  d = m["d"]
  skew = m["model"] == "front_skew"    # rare treatment, strong confounder
  pu, alpha = r.uniform(.3, .7), r.uniform(-.5, .5)
  gx = [r.uniform(.35, .65) for _ in range(2)]
  if skew:
    alpha = r.choice([-1, 1]) * r.uniform(2, 4)
    gx = [r.uniform(.12, .2), r.uniform(.3, .45)]
    if r.random() < .5:
      gx = [1 - x for x in gx]
  if m["model"] == "front_levels":     # one column, three values
    vals = [[float(v)] for v in (r.choice([[0, 1, 2], [-1, 0, 3], [1, 2, 4]]))]
    pz = []
    for _ in (0, 1):
      w = [r.uniform(1, 2) for _ in vals]
      pz.append([x / sum(w) for x in w])
    d = 1
  else:                                # d binary columns
    vals = [[float(k >> j & 1) for j in range(d)] for k in range(2**d)]
    pr = [[r.uniform(.38, .62) for _ in range(d)] for _ in (0, 1)]
    pz = [[math.prod(pr[x][j] if v[j] else 1 - pr[x][j] for j in range(d))
           for v in vals] for x in (0, 1)]
  gam = [r.choice([-1, 1]) * (r.uniform(.5, 1.5) if skew else r.uniform(2, 6))
         for _ in range(d)]
  if sum(gam) == 0:
    gam[0] += 1
  zs = [sum(a * b for a, b in zip(gam, v)) for v in vals]
  arr = np.array(vals)
  gv = np.array(gam)

  def z_cpd(n, parents):
    x = np.asarray(parents[0], dtype=int)
    u = np.random.random(n)
    cum = np.cumsum(np.array(pz), axis=1)[x]
    k = np.minimum((u[:, None] > cum).sum(axis=1), len(vals) - 1)
    return arr[k]

  def y_cpd(n, parents):
    return parents[0].dot(gv) + alpha * parents[1] + np.random.normal(size=n)

  cpds = {
      "U": lambda n, p: np.random.binomial(1, pu, size=n),
      "X": lambda n, p: np.random.binomial(1, np.array(gx)[p[0]]),
      "Z": z_cpd, "Y": y_cpd}
  g = lib.scm.SCM("front", ["U", "X", "Z", "Y"],
                  {"U": [], "X": ["U"], "Z": ["X"], "Y": ["Z", "U"]}, cpds,
                  ["U", "Z"], "X", "Y")
  t = frontdoor_truth(pu, gx, zs, pz, gam, alpha)
  return g, [("front", list(range(1, d + 1)), t, not skew,
              front_score(pu, gx, vals, zs, pz, alpha))]


def make_misspecified(r, kind):
  """Two binary covariates; one of the two nuisance models is wrong.

  The score stays unbiased for the effect; its nuisance functions converge to
  the best approximations, which are computed by enumeration.
  """
  np = lib.np
  cells = [(a, b) for a in (0.0, 1.0) for b in (0.0, 1.0)]
  q = [r.uniform(.35, .65) for _ in range(2)]
  pzs = [math.prod(q[j] if z[j] else 1 - q[j] for j in range(2)) for z in cells]
  tau = r.uniform(-3, 3)
  b = [r.uniform(-2, 2) for _ in range(2)]
  if kind == "mis_response":     # intercept and interaction, logistic treatment
    side = r.choice([-1, 1])
    a = [side * r.uniform(.4, .7), side * r.uniform(.5, .9),
         side * r.uniform(.0, .5)]
    es = [sig(a[0] + a[1] * z[0] + a[2] * z[1]) for z in cells]
    c0, h = r.choice([-1, 1]) * r.uniform(1, 3), r.uniform(-2, 2)
  else:                          # linear response, treatment by exclusive or
    hi, lo = r.uniform(.65, .8), r.uniform(.2, .4)
    es = [hi if z[0] != z[1] else lo for z in cells]
    c0 = h = 0.0
  mean = lambda z, x: c0 + b[0] * z[0] + b[1] * z[1] + (tau + h * z[0]) * x
  # limits of the fitted functions: linear response, logistic treatment
  rows = [(w * (e if x else 1 - e), [x, *z], mean(z, x))
          for z, w, e in zip(cells, pzs, es) for x in (1.0, 0.0)]
  xx = sum(w * np.outer(v, v) for w, v, _ in rows)
  xy = sum(w * np.array(v) * y for w, v, y in rows)
  coef = np.linalg.solve(xx, xy)
  th = np.zeros(3)
  for _ in range(50):
    v = np.array([[1.0, *z] for z in cells])
    f = 1 / (1 + np.exp(-v.dot(th)))
    grad = v.T.dot(np.array(pzs) * (np.array(es) - f))
    hess = (v * (np.array(pzs) * f * (1 - f))[:, None]).T.dot(v)
    th = th + np.linalg.solve(hess, grad)
  mu = lambda z, x: coef[0] * x + z.dot(coef[1:])
  e_lim = lambda z: 1 / (1 + np.exp(-(th[0] + z.dot(th[1:]))))
  effect = sum(w * (tau + h * z[0]) for z, w in zip(cells, pzs))
  atoms = []
  for z, w, e in zip(cells, pzs, es):
    za = np.array([z])
    el = float(e_lim(za)[0])
    for x in (1.0, 0.0):
      c = x / el - (1 - x) / (1 - el)
      m1, m0 = float(mu(za, 1.0)[0]), float(mu(za, 0.0)[0])
      off = m1 - m0 + (mean(z, x) - (m1 if x else m0)) * c - effect
      atoms.append((w * (e if x else 1 - e), off, c, 1.0))
  bias = sum(p * a for p, a, _, _ in atoms)
  assert abs(bias) < 1e-9, bias
  pz = np.array(es).reshape(2, 2)

  def y_cpd(_, p):
    u, v, x = p
    return (c0 + b[0] * u + b[1] * v + (tau + h * u) * x +
            np.random.normal(size=len(x)))

  cpds = {
      "A": lambda n, p: np.random.binomial(1, q[0], size=n),
      "B": lambda n, p: np.random.binomial(1, q[1], size=n),
      "X": lambda n, p: np.random.binomial(1, pz[p[0], p[1]]),
      "Y": y_cpd}
  g = lib.scm.SCM("back", ["A", "B", "X", "Y"],
                  {"A": [], "B": [], "X": ["A", "B"], "Y": ["A", "B", "X"]},
                  cpds, ["A", "B"], "X", "Y")
  return g, [("back", [0, 1], Truth(effect, atoms), False,
              aipw_score(mu, e_lim))]


KINDS = ("backdoor", "frontdoor", "linear", "steep", "heavy", "mis_response",
         "mis_propensity", "front_bits", "front_levels", "front_skew")


def eta_of(kind, d, eta):
  p = lib.parameters
  if kind == "front":
    return p.FrontDoorLinearFiniteZ(d, min_units=5, min_overlap=.05)
  if eta == "kernel":
    return p.AIPWKernelRidgeLogistic(d, min_units=5, min_overlap=.05)
  if eta == "boost":
    return p.AIPWKernelGradientBoosting(d, min_units=5, min_overlap=.05)
  return p.AIPWLinearLogistic(d, min_units=5, min_overlap=.05)


CALIBRATE = os.environ.get("SIM_CALIBRATE")
# Root-mean-square error of scores times sqrt(fitted units) over the score's
# deviation; about 2.5 times the largest value met in 4000 runs.
SCORE_TOL = {"front_skew": 40, "mis_response": 25, "steep": 25}
# Largest relative error of one score, times sqrt(fitted units).
UNCLIPPED = {"linear": 25, "backdoor": 25, "heavy": 25}


class Faulty:
  """A data source that fails, reads short, or is selective in places."""

  def __init__(self, ctx, gen, script):
    self.ctx = ctx
    self.gen = gen
    self.script = list(script)
    self.k = 0

  def generate(self, n):
    mode = self.script[self.k] if self.k < len(self.script) else "ok"
    self.k += 1
    n = int(n)
    self.ctx.tick()
    if mode == "fault":
      self.ctx.fault("source_fault")
      raise core.make_fault(("fault", "ValueError", "RuntimeError", "OSError")[
          n % 4], "source")
    if mode == "empty":
      self.ctx.fault("empty_read")
      return self.gen.generate(n)[:0]
    if mode == "short":
      self.ctx.fault("short_read")
      return self.gen.generate(n)[: n // 3]
    if mode in ("treated", "control"):
      self.ctx.fault("one_group_batch")
      d = self.gen.generate(n)
      want = 1 if mode == "treated" else 0
      idx = [i for i in range(len(d)) if d.exp[i] == want][:4]
      return d[idx]
    return self.gen.generate(n)


@register
class C20(Check):
  id = "C20"
  n = {"quick": 700, "thorough": 40000}
  real = ["AIPW (linear, kernel ridge, gradient boosting)",
          "FrontDoorLinearFiniteZ, TabularCPD", "SampleSplittingArm, "
          "BootstrapArm", "SCM, example models, LinearDataGenerator",
          "three bandit algorithms (in a third of the runs)"]
  stub = ["two more front-door models with known truth",
          "data source wrapper that injects faults"]
  assumptions = Check.assumptions + [
      "convergence is judged at one finite sample size per run, within 5.5 to 12 "
      "standard errors plus 2-4 per cent (linear models) or 6-12 per cent "
      "(kernel models) of the scale",
  ]
  rule = ("one run = a causal model with random parameters, its arms fed "
          "2000-16000 units in a random batching with short, empty, one-group "
          "and failing reads and interrupted updates in between, directly or "
          "by a bandit; final effect and variance compared with the exact "
          "values; non-trivial = at least one fault was injected")

  def gen(self, rng, i, tier):
    model = rng.choice(KINDS)
    m = dict(model=model, seed=rng.randrange(2**31),
             d=2 if model in ("front_bits", "mis_response", "mis_propensity")
             else rng.choice([1, 2]))
    total = rng.choice([2000, 4000, 8000, 16000])
    eta = "linear"
    if model in ("backdoor",) and rng.random() < 0.25:
      eta = rng.choice(["kernel", "boost"])
      total = 1200
    big = rng.choice([2, 3, 5, 9])
    sizes = [total // big] * big
    batches = [[n, rng.choice(["ok", "ok", "ok", "fault", "line"])]
               for n in sizes]
    for _ in range(rng.choice([0, 2, 5])):
      batches.insert(rng.randrange(len(batches) + 1), [
          rng.choice([0, 1, 2, 7, 30]),
          rng.choice(["ok", "empty", "short", "treated", "control", "fault",
                      "line", "delta"])])
    return dict(model=m, eta=eta, batches=batches,
                boot=rng.random() < 0.25 and eta == "linear",
                stable=rng.random() < 0.7, ci=rng.choice(["CHI2", "CLT",
                                                          "FINITE"]),
                bandit=rng.choice([None, None, rng.choice(ALGS)]),
                lines=[rng.randrange(1, 400) for _ in range(4)])

  def valid(self, p):
    m = p["model"]
    ok = m["model"] in KINDS and m["d"] in (1, 2)
    ok = ok and p["eta"] in ("linear", "kernel", "boost") and (
        p["eta"] == "linear" or m["model"] == "backdoor")
    ok = ok and p["ci"] in ("CHI2", "CLT", "FINITE")
    ok = ok and p["bandit"] in (None,) + ALGS
    ok = ok and all(len(b) == 2 and b[0] >= 0 for b in p["batches"])
    n = sum(b[0] for b in p["batches"] if b[1] in ("ok", "fault", "line") and
            b[0] >= 100)
    lo = 1000 if p["eta"] != "linear" else 2000
    return ok and lo - 20 <= n <= 17000 and len(p["lines"]) >= 1 and all(
        x >= 1 for x in p["lines"]) and sum(
            1 for b in p["batches"] if b[0] < 100) <= 6

  def arms(self, p, specs):
    out = []
    for kind, cols, *_ in specs:
      spec = dict(arm="boot" if p["boot"] else "split", stable=p["stable"],
                  ci=p["ci"], n_boot=2, burn_in=2)
      eta = eta_of(kind, len(cols), p["eta"])
      out.append(lab.make_arm(spec, eta,
                              lib.data.get_coordinate_mask_fn(cols)))
      out[-1].sim_eta = eta
    return out

  def run(self, ctx, p):
    gen, specs = make_model(p["model"])
    arms = self.arms(p, specs)
    if p["bandit"]:
      self.by_bandit(ctx, p, gen, arms)
    else:
      for arm in arms:
        self.direct(ctx, p, gen, arm)
    ctx.nontrivial = bool(ctx.faults)
    for arm, (kind, cols, t, var_ok, score) in zip(arms, specs):
      self.judge(ctx, p, arm, kind, t, var_ok)
      if score and p["eta"] == "linear" and not p["boot"]:
        self.judge_score(ctx, p, gen, arm, kind, cols, t, score)

  def direct(self, ctx, p, gen, arm):
    """Every batch reaches the arm in the end (a failed one is delivered again
    unless the arm kept it)."""
    lines = list(p["lines"])
    for n, mode in p["batches"]:
      src = Faulty(ctx, gen, [mode])
      try:
        d = src.generate(n)
      except core.InjectedFault:
        d = src.generate(n)
      if mode == "delta":
        try:
          arm.update(d, 1.5)
          raise Violation("level-accepted", "level 1.5 was accepted")
        except ValueError:
          ctx.fault("invalid_level")
      units = arm.get_num_units()
      if mode == "line":
        try:
          with core.CrashAtLine(ctx, lines[0]):
            arm.update(d, .1)
        except core.InjectedInterrupt:
          ctx.fault("interrupt_at_line")
        lines.append(lines.pop(0))
        if arm.get_num_units() == units and len(d):
          arm.update(d, .1)
      else:
        arm.update(d, .1)
      ctx.ev("update", n, mode, arm.get_num_units())
      ctx.sig(n, mode)
    arm.update(gen.generate(40), .1)    # faults have stopped

  def by_bandit(self, ctx, p, gen, arms):
    """The batches form rounds; all arms together are one race."""
    if len(arms) == 1:
      extra = self.arms(p, make_model(p["model"])[1])
      arms = arms + extra
    rounds = [b for b in p["batches"] if b[0] >= 100]
    upr = max(b[0] for b in rounds)
    src = Faulty(ctx, gen, ["ok" if b[1] in ("line", "delta") else b[1]
                            for b in p["batches"]])
    # A single-round race updates every arm; it is repeated on the same arms.
    b = alg_class(p["bandit"])(arms, src, error_prob=.1, sample_limit=0,
                               units_per_round=upr)
    for _ in rounds:
      for _ in range(8):
        try:
          b.run()
          break
        except core.InjectedFault:
          continue
    for k, arm in enumerate(arms):
      ctx.ev("raced", k, arm.get_num_units())
      need = 900 if p["eta"] != "linear" else 1900
      while arm.get_num_units() < need:   # short reads: top up
        arm.update(gen.generate(upr), .1)

  def judge(self, ctx, p, arm, kind, t, var_ok):
    n = arm.get_num_units()
    half = n // 2
    slack = .02 if p["eta"] == "linear" else .06
    boot = p["boot"]
    sd = math.sqrt(t.var)
    # with one wrong model the error of the other one is of first order
    z = 12 if p["model"]["model"].startswith("mis") else 5.5
    tol = z * sd / math.sqrt(half) + slack * max(1.0, sd)
    ctx.ev("estimate", kind, n, repr(float(arm.ate)), repr(float(arm.var_est)))
    ctx.probe("effect compared: " + kind)
    err = abs(float(arm.ate) - t.tau)
    expect(err <= tol, "effect",
           lambda: f"{kind}-door arm, {n} units: effect {arm.ate:.4f}, true "
           f"{t.tau:.4f} (tolerance {tol:.4f})")
    if not var_ok:
      return
    vtol = 9 * math.sqrt(t.var2) / math.sqrt(half) + 2 * slack * max(1, t.var)
    vtol += 1.5 * t.var / math.sqrt(half)    # error of the fitted functions
    ctx.probe("variance compared: " + kind)
    expect(abs(float(arm.var_est) - t.var) <= vtol, "variance",
           lambda: f"{kind}-door arm{' (bootstrap)' if boot else ''}, {n} "
           f"units: variance {arm.var_est:.4f}, asymptotic {t.var:.4f} "
           f"(tolerance {vtol:.4f})")


  def judge_score(self, ctx, p, gen, arm, kind, cols, t, score):
    """The fitted nuisance parameter gives new units their efficient score."""
    np = lib.np
    d = gen.generate(150)
    got = np.asarray(arm.sim_eta.calculate_score(
        lib.data.get_coordinate_mask_fn(cols)(d)), dtype=float)
    want = score(d, cols)
    sd = math.sqrt(t.var)
    err2 = np.sort((got - want)**2)[:-8]     # without clipped tails
    rms = math.sqrt(float(np.mean(err2)))
    half = arm.get_num_units() // 2
    tol = sd * SCORE_TOL.get(p["model"]["model"], 16) / math.sqrt(half)
    ctx.probe("score compared: " + kind)
    if p["model"]["model"] in UNCLIPPED:
      # no unit, however far out, has a score that is far off
      off = np.abs(got - want) / (sd + np.abs(want - t.tau))
      k = int(np.argmax(off))
      if CALIBRATE:
        print("MAX", p["model"]["model"], off[k] * math.sqrt(half), half,
              file=sys.stderr)
      expect(off[k] <= UNCLIPPED[p["model"]["model"]] / math.sqrt(half),
             "unit-score",
             lambda: f"{kind}-door arm ({p['model']['model']}), {2 * half} "
             f"units: a new unit's score is {got[k]:.4f}, exact {want[k]:.4f} "
             f"(score deviation {sd:.4f})")
    if CALIBRATE:
      print("CAL", p["model"]["model"], rms / sd * math.sqrt(half), half,
            p["bandit"], file=sys.stderr)
    expect(rms <= tol, "score",
           lambda: f"{kind}-door arm ({p['model']['model']}), {2 * half} units: "
           f"scores of new units are off by {rms:.4f} (root mean square, "
           f"tolerance {tol:.4f}, score deviation {sd:.4f}), e.g. "
           f"{np.round(got[:4], 3)}, exact {np.round(want[:4], 3)}")


# -- recording models ----------------------------------------------------------


def as_columns(x, n):
  x = lib.np.asarray(x, dtype=float)
  if x.ndim == 2:
    return x
  return x.reshape(n, x.size // n if n else 1)


class Recorder:
  """A structural causal model whose distributions are the simulator's.

  Every value tells the call, the variable, the column and the unit.
  """

  def __init__(self, ctx, g):
    self.ctx = ctx
    self.g = g
    self.names = [f"N{k}" for k in range(len(g["dims"]))]
    self.log = []          # one entry per executed distribution
    self.calls = 0
    self.fail = None       # dict(at=, exc=)
    self.hook = None       # called before a distribution returns
    self.who = lambda: 0
    n = self.names
    self.parents = {n[k]: [n[j] for j in ps] for k, ps in enumerate(g["parents"])}
    self.cpds = {n[k]: self.make(k) for k in range(len(n))}
    self.scm = lib.scm.SCM("recorder", [n[k] for k in g["order"]], self.parents,
                           dict(self.cpds), [n[k] for k in g["cov"]], n[g["t"]],
                           n[g["y"]])
    self.before = dict(self.scm.cpds)

  def make(self, k):
    np = lib.np
    dim = self.g["dims"][k]

    def cpd(n_samples, parents):
      self.calls += 1
      call = self.calls
      self.ctx.tick()
      n = int(n_samples)
      seen = [np.array(p) for p in parents]
      if self.fail and call == self.fail["at"]:
        self.ctx.fault("distribution_" + self.fail["kind"])
        raise self.fail["exc"]
      unit = np.arange(n) / 65536
      base = call * 64 + k * 2
      if dim == 0:
        val = base + unit
      else:
        val = np.stack([base + c + unit for c in range(dim)], axis=1)
      self.log.append(dict(var=k, n=n, parents=seen, value=val.copy(),
                           who=self.who(), call=call))
      if self.g["greedy"] and k in self.g["greedy"] and isinstance(parents, list):
        parents.clear()          # a distribution may consume its argument
      if self.hook:
        self.hook(k, call)
      return val

    return cpd

  def check_generation(self, log, n, d):
    """One successful generate(n): its distribution calls and its result."""
    np = lib.np
    g = self.g
    by = {}
    for e in log:
      expect(e["var"] not in by, "sampled-twice",
             lambda: f"variable {self.names[e['var']]} was sampled twice in one "
             "call")
      expect(e["n"] == n, "wrong-size", lambda: f"a distribution was asked for "
             f"{e['n']} units, generate was asked for {n}")
      want = g["parents"][e["var"]]
      expect(all(j in by for j in want), "before-its-parents",
             lambda: f"{self.names[e['var']]} was sampled before its parents")
      expect(len(e["parents"]) == len(want) and all(
          np.array_equal(x, by[j]) for x, j in zip(e["parents"], want)),
             "wrong-parents", lambda: f"{self.names[e['var']]}: parents "
             f"{[self.names[j] for j in want]} in this order expected; it got "
             f"values of {[self.origin(x) for x in e['parents']]}")
      by[e["var"]] = e["value"]
    expect(len(by) == len(self.names), "not-sampled",
           lambda: f"only {len(by)} of {len(self.names)} variables were sampled")
    cols = np.concatenate([as_columns(by[k], n)
                           for k in g["cov"]], axis=1)
    cov = np.asarray(d.cov)
    expect(cov.shape == cols.shape and np.array_equal(cov, cols),
           "wrong-covariates", lambda: f"covariates of shape {cov.shape}, "
           f"expected {cols.shape} from {[self.names[k] for k in g['cov']]}; "
           f"first row {cov[:1].tolist()}, expected {cols[:1].tolist()}")
    expect(np.array_equal(d.exp, by[g["t"]]), "wrong-exposure",
           lambda: f"exposure holds {self.origin(d.exp)}")
    expect(np.array_equal(d.rsp, by[g["y"]]), "wrong-response",
           lambda: f"response holds {self.origin(d.rsp)}")
    expect(len(d) == n, "wrong-size", lambda: f"{len(d)} units, asked for {n}")

  def origin(self, x):
    np = lib.np
    x = np.asarray(x, dtype=float).reshape(-1)
    if not len(x):
      return "nothing"
    v = int(x[0])
    return f"N{v % 64 // 2} (call {v // 64})" if v >= 64 else repr(x[0])


def gen_graph(rng, y_child=False):
  n = rng.randrange(2 if y_child else 3, 8)
  perm = list(range(n))
  rng.shuffle(perm)       # perm = a topological order
  pos = {v: i for i, v in enumerate(perm)}
  dens = rng.choice([.2, .5, .8])
  parents = []
  for v in range(n):
    ps = [u for u in range(n) if pos[u] < pos[v] and rng.random() < dens]
    rng.shuffle(ps)
    parents.append(ps)
  i, j = sorted(rng.sample(range(n), 2))
  t, y = perm[i], perm[j]
  if not y_child and rng.random() < 0.3:
    t, y = y, t
  elif y_child and t not in parents[y]:
    parents[y].insert(rng.randrange(len(parents[y]) + 1), t)
  dims = [rng.choice([0, 0, 1, 2, 3]) for _ in range(n)]
  dims[t] = dims[y] = 0
  cov = rng.sample(range(n), rng.randrange(1, n + 1))
  return dict(dims=dims, parents=parents, order=perm, t=t, y=y, cov=cov,
              greedy=rng.choice([[], [], [v for v in range(n) if
                                          rng.random() < .5]]))


def ordered(g):
  seen = set()
  for v in g["order"]:
    if not set(g["parents"][v]) <= seen:
      return False
    seen.add(v)
  return True


def valid_graph(g):
  n = len(g["dims"])
  ok = n >= 2 and len(g["parents"]) == n and sorted(g["order"]) == list(range(n))
  ok = ok and all(0 <= u < n for ps in g["parents"] for u in ps)
  ok = ok and all(len(set(ps)) == len(ps) for ps in g["parents"])
  ok = ok and 0 <= g["t"] < n and 0 <= g["y"] < n and g["t"] != g["y"]
  ok = ok and g["dims"][g["t"]] == g["dims"][g["y"]] == 0
  ok = ok and all(0 <= d <= 3 for d in g["dims"])
  ok = ok and g["cov"] and len(set(g["cov"])) == len(g["cov"])
  return bool(ok and all(0 <= u < n for u in g["cov"]) and
              all(0 <= u < n for u in g["greedy"]))


@register
class C23(Check):
  id = "C23"
  n = {"quick": 7000, "thorough": 500000}
  real = ["SCM.generate, categorical_conditioning"]
  stub = ["conditional distributions (recording, failing, re-entrant)"]
  rule = ("one run = a random graph of 2-7 variables with recording "
          "distributions and a sequence of generate calls, some failing at a "
          "variable or an executed line, some nested inside a distribution; or "
          "a violated variable order; or categorical conditioning over random "
          "parents; non-trivial = a call succeeded after a failed or nested "
          "one")

  def gen(self, rng, i, tier):
    if i % 16 == 5:
      roots = rng.randrange(0, 3)
      return dict(what="twin", roots=roots, twins=rng.randrange(2, 5),
                  dim=rng.choice([0, 0, 1, 2]), child=rng.random() < 0.6,
                  plist=rng.random() < 0.5,
                  ns=[rng.choice([1, 2, 5]) for _ in range(rng.randrange(1, 4))],
                  at=rng.choice([None, rng.randrange(1, 9)]),
                  kind=core.fault_kind(rng))
    if i % 4 == 3:
      k = rng.randrange(1, 5)
      return dict(what="cat", n=rng.choice([0, 1, 2, 5, 9]),
                  dims=[rng.choice([0, 0, 1, 2, 3]) for _ in range(k)],
                  idx=rng.choice([rng.randrange(k), rng.randrange(k), k, k + 1]),
                  levels=rng.choice([1, 2, 3]), seed=rng.randrange(10**6),
                  itype=rng.choice(["int64", "int8", "float64", "bool"]),
                  at=rng.choice([None, None, rng.randrange(1, 9)]),
                  kind=core.fault_kind(rng),
                  tup=rng.random() < 0.2)
    g = gen_graph(rng)
    if rng.random() < 0.15:       # violate the order
      g["order"] = g["order"][:]
      rng.shuffle(g["order"])
    ops = []
    for _ in range(rng.randrange(1, 6)):
      ops.append(dict(n=rng.choice([0, 1, 2, 5, 11]) if
                      rng.random() < 0.98 else rng.choice([300, 20000]),
                      at=rng.choice(
          [None, None, rng.randrange(1, len(g["dims"]) + 1)]),
                      kind=core.fault_kind(rng),
                      line=rng.choice([None, None, None, rng.randrange(1, 40)]),
                      nest=rng.choice([None, None, [rng.randrange(len(g["dims"])),
                                                    rng.choice([1, 3])]])))
    return dict(what="graph", g=g, ops=ops)

  def valid(self, p):
    if p["what"] == "cat":
      return (p["n"] >= 0 and p["dims"] and all(0 <= d <= 3 for d in p["dims"])
              and p["idx"] >= 0 and 1 <= p["levels"] <= 3 and p["itype"] in (
                  "int64", "int8", "float64", "bool") and
              p["kind"] in core.FAULT_CLASSES)
    if p["what"] == "twin":
      return (p["roots"] >= 0 and p["twins"] >= 2 and 0 <= p["dim"] <= 3 and
              all(n >= 1 for n in p["ns"]) and p["kind"] in core.FAULT_CLASSES)
    return p["what"] == "graph" and valid_graph(p["g"]) and all(
        o["n"] >= 0 and (o["line"] is None or o["line"] >= 1) and
        o["kind"] in core.FAULT_CLASSES and
        (o["nest"] is None or (len(o["nest"]) == 2 and o["nest"][1] >= 0))
        for o in p["ops"])

  def run(self, ctx, p):
    if p["what"] == "cat":
      self.categorical(ctx, p)
    elif p["what"] == "twin":
      self.twins(ctx, p)
    else:
      self.graph(ctx, p)

  def graph(self, ctx, p):
    g = p["g"]
    ok = ordered(g)
    try:
      rec = Recorder(ctx, g)
    except ValueError as e:
      if ok or not core.in_repo(e.__traceback__):
        raise
      ctx.probe("order rejected by the constructor")
      return
    if not ok:
      ctx.fault("violated_order")
    troubled = False
    for o in p["ops"]:
      rec.log.clear()
      base = rec.calls
      exc = core.make_fault(o["kind"], "distribution")
      rec.fail = o["at"] and dict(at=base + o["at"], kind=o["kind"], exc=exc)
      nested = []
      rec.hook = None
      if o["nest"] and ok:
        def hook(k, call, o=o, nested=nested):
          if k == o["nest"][0] and not nested:
            nested.append(None)
            keep, rec.log = rec.log, []
            fail, rec.fail = rec.fail, None
            try:
              d = rec.scm.generate(o["nest"][1])
              rec.check_generation(rec.log, o["nest"][1], d)
            finally:
              rec.log, rec.fail = keep, fail
            nested.append(True)
            ctx.fault("nested_generation")
        rec.hook = hook
      got = None
      try:
        if o["line"]:
          with core.CrashAtLine(ctx, o["line"]) as crash:
            got = rec.scm.generate(o["n"])
        else:
          crash = None
          got = rec.scm.generate(o["n"])
      except core.INJECTED as e:
        troubled = True
        if crash and crash.fired:
          ctx.fault("interrupt_at_line")
        else:
          expect(rec.fail and e is rec.fail["exc"], "exception-replaced",
                 lambda: f"{e!r} instead of the distribution's exception")
      except ValueError as e:
        if ok or not core.in_repo(e.__traceback__):
          raise
        ctx.ev("rejected")
        continue
      ctx.ev("generate", o["n"], [e["var"] for e in rec.log], got is not None)
      ctx.sig(tuple(g["order"]), tuple(map(tuple, g["parents"])), o["n"],
              got is not None)
      if got is None:
        continue
      expect(ok, "order-accepted",
             lambda: f"order {g['order']} with parents {g['parents']} was "
             "accepted")
      expect(not (rec.fail and o["at"] <= len(g["dims"]) and not o["nest"]),
             "failure-swallowed",
             lambda: f"the distribution call number {o['at']} failed, generate "
             "returned a result")
      rec.check_generation(rec.log, o["n"], got)
      if troubled or nested:
        ctx.nontrivial = True

  def twins(self, ctx, p):
    """Several variables with the same parents and one distribution object."""
    np = lib.np
    roots = [f"R{j}" for j in range(p["roots"])]
    twins = [f"T{j}" for j in range(p["twins"])]
    st = dict(calls=0, drawn=[], given=[], fail=None)

    def draw(n, dim):
      st["calls"] += 1
      ctx.tick()
      if st["fail"] == st["calls"]:
        st["exc"] = core.make_fault(p["kind"], "distribution")
        ctx.fault("distribution_" + p["kind"])
        raise st["exc"]
      base = 64.0 * st["calls"] + np.arange(n) / 65536
      return base if dim == 0 else np.stack(
          [base + c for c in range(dim)], axis=1)

    def shared(n, parents):
      v = draw(n, p["dim"])
      st["given"].append([np.array(x) for x in parents])
      st["drawn"].append(v.copy())
      return v

    def last(n, parents):
      v = draw(n, 0)
      st["child"] = [np.array(x) for x in parents]
      return v

    root = lambda n, parents: draw(n, 0)
    same = list(roots)
    order = roots + twins + ["Z"]
    parents = {r: [] for r in roots}
    parents.update({t: same if p["plist"] else list(roots) for t in twins})
    parents["Z"] = list(twins) if p["child"] else []
    cpds = {r: root for r in roots}
    cpds.update({t: shared for t in twins})
    cpds["Z"] = last
    cov = roots + twins
    model = lib.scm.SCM("twins", order, parents, cpds, cov, "Z", "Z")
    for k, n in enumerate(p["ns"]):
      st.update(calls=st["calls"], drawn=[], given=[], child=None, exc=None)
      st["fail"] = p["at"] and k == 0 and st["calls"] + p["at"]
      try:
        d = model.generate(n)
      except core.INJECTED as e:
        expect(e is st["exc"], "exception-replaced", lambda: f"{e!r}")
        ctx.nontrivial = True
        continue
      ctx.ev("twins", n, len(st["drawn"]))
      ctx.sig("twins", p["roots"], p["twins"], p["dim"], n)
      expect(len(st["drawn"]) == len(twins), "not-sampled",
             lambda: f"{len(twins)} variables share a distribution and their "
             f"parents; it was drawn from {len(st['drawn'])} times")
      cols = np.asarray(d.cov)
      w = max(p["dim"], 1)
      rc, tc = cols[:, :len(roots)], cols[:, len(roots):]
      expect(tc.shape == (n, w * len(twins)), "wrong-covariates",
             lambda: f"covariates of shape {cols.shape}")
      got = [tc[:, w * j:w * j + w] for j in range(len(twins))]
      left = [as_columns(v, n) for v in st["drawn"]]
      for j, x in enumerate(got):
        hit = [q for q, v in enumerate(left) if np.array_equal(v, x)]
        expect(hit, "sampled-twice", lambda: f"variable {twins[j]} does not hold "
               f"a draw of its own: first unit {x[:1].tolist()}, draws left "
               f"{[v[:1].tolist() for v in left]}")
        left.pop(hit[0])
      for g in st["given"]:
        expect(len(g) == len(roots) and all(
            np.array_equal(x, rc[:, j]) for j, x in enumerate(g)),
               "wrong-parents", "a variable got other values than its parents'")
      if p["child"]:
        expect(len(st["child"]) == len(twins) and all(
            np.array_equal(as_columns(x, n), got[j])
            for j, x in enumerate(st["child"])), "wrong-parents",
               "the child of the variables that share a distribution got other "
               "values than theirs")
      ctx.nontrivial = True

  def categorical(self, ctx, p):
    np = lib.np
    r = random.Random(f"cat/{p['seed']}")
    n, k, idx = p["n"], len(p["dims"]), p["idx"]
    parents = []
    for j, d in enumerate(p["dims"]):
      if d == 0:
        parents.append(np.array([100.0 * j + i for i in range(n)]))
      else:
        parents.append(np.array([[100.0 * j + 1000 * c + i for c in range(d)]
                                 for i in range(n)]).reshape(n, d))
    levels = min(p["levels"], 2) if p["itype"] == "bool" else p["levels"]
    lev = [r.randrange(levels) for _ in range(n)]
    if idx < k:
      parents[idx] = np.array(lev, dtype=p["itype"])
    rest = [x for j, x in enumerate(parents) if j != idx]
    weights = [r.choice([1.0, 2.0, 3.0, 7.0]) for _ in range(20)]

    def value(level, m, ps):
      out = np.full(m, 1e6 * (level + 1))
      for j, x in enumerate(ps):
        x = as_columns(x, m)
        for c in range(x.shape[1]):
          out = out + weights[(3 * j + c) % 20] * (j + 1) * x[:, c]
      return out

    st = dict(calls=0)
    exc = core.make_fault(p["kind"], "distribution")

    def dist(level):
      def f(m, ps):
        st["calls"] += 1
        ctx.tick()
        if p["at"] and st["calls"] == p["at"]:
          ctx.fault("distribution_" + p["kind"])
          st["hit"] = True
          raise exc
        return value(level, int(m), list(ps))
      return f

    dists = [dist(v) for v in range(levels)]
    arg = tuple(parents) if p["tup"] else list(parents)
    copies = [x.copy() for x in parents]
    got = None
    try:
      got = lib.scm.categorical_conditioning(arg, idx, dists)
    except core.INJECTED as e:
      expect(e is exc, "exception-replaced", lambda: f"{e!r}")
    except ValueError as e:
      if idx < k or not core.in_repo(e.__traceback__):
        raise
      ctx.ev("rejected")
      return
    ctx.ev("categorical", n, k, idx, got is not None)
    ctx.sig("cat", n, tuple(p["dims"]), idx, tuple(lev), got is not None)
    expect(len(arg) == k and all(a is b for a, b in zip(arg, parents)) and all(
        np.array_equal(a, b) for a, b in zip(parents, copies)),
           "parents-changed", "the caller's list of parents was changed")
    expect(len(dists) == levels, "parents-changed", "the list of distributions "
           "was changed")
    if got is None:
      return
    expect(idx < k, "index-accepted", lambda: f"index {idx} of {k} parents was "
           "accepted")
    expect(not st.get("hit"), "failure-swallowed", "a distribution failed")
    want = np.array([value(lev[i], 1, [x[i] for x in rest])[0]
                     for i in range(n)])
    expect(np.asarray(got).shape == (n,) and np.array_equal(got, want),
           "categorical", lambda: f"levels {lev}: values {got}, expected {want}")
    ctx.nontrivial = n > 1


@register
class C24(Check):
  id = "C24"
  n = {"quick": 3000, "thorough": 200000}
  real = ["SCM.compute_treatment_effect, SCM.generate, deterministic_cpd"]
  stub = ["conditional distributions (recording, failing)",
          "thread scheduler (line-granular, seeded)"]
  rule = ("one run = a random graph whose treatment is a parent of the "
          "response, and treatment-effect computations that succeed, fail at a "
          "distribution call, or are interrupted at an executed line, followed "
          "by generation; in half of the runs 2-3 threads compute and generate "
          "on one model, preempted at executed lines; non-trivial = a fault or "
          "at least 2 preemptions during a computation")
  measure = ("distinct sequences of preemptions (from, to, function) or of "
             "(operation, outcome)")

  def gen(self, rng, i, tier):
    g = gen_graph(rng, y_child=True)
    m = len(g["dims"])
    p = dict(g=g)
    if rng.random() < 0.5:
      n = rng.choice([2, 2, 3])
      p["tasks"] = [[[rng.choice(["gen", "effect"]), rng.choice([1, 2, 5])]
                     for _ in range(rng.randrange(1, 4))] for _ in range(n)]
      if not any(o[0] == "effect" for t in p["tasks"] for o in t):
        p["tasks"][0][0][0] = "effect"
      style = rng.choice([1, 2, 5, 12])
      p["gaps"] = [[rng.randrange(1, 2 * style + 1), rng.randrange(3)]
                   for _ in range(rng.choice([4, 20, 60]))]
      p["interrupt"] = rng.choice([None, None, [rng.randrange(n),
                                                rng.randrange(1, 60)]])
    else:
      p["ops"] = [dict(op=rng.choice(["gen", "effect", "effect"]),
                       n=rng.choice([1, 2, 7]) if rng.random() < 0.97 else
                       rng.choice([600, 30000, 120000]), at=rng.choice(
                           [None, None, rng.randrange(1, 2 * m + 1)]),
                       kind=core.fault_kind(rng),
                       line=rng.choice([None, None, rng.randrange(1, 70)]))
                  for _ in range(rng.randrange(1, 7))]
    return p

  def valid(self, p):
    g = p["g"]
    if not (valid_graph(g) and ordered(g) and g["t"] in g["parents"][g["y"]]):
      return False
    if "ops" in p and "tasks" not in p:
      return all(o["op"] in ("gen", "effect") and o["n"] >= 1 and
                 o["kind"] in core.FAULT_CLASSES and
                 (o["line"] is None or o["line"] >= 1) for o in p["ops"])
    return len(p["tasks"]) >= 2 and all(
        o[0] in ("gen", "effect") and o[1] >= 1 for t in p["tasks"] for o in t
    ) and all(len(x) == 2 and x[0] >= 1 for x in p["gaps"])

  def intact(self, rec):
    now = rec.scm.cpds
    expect(set(now) == set(rec.before) and all(
        now[k] is rec.before[k] for k in now), "model-changed",
           lambda: "the model's distributions were replaced: "
           f"{sorted(k for k in now if now[k] is not rec.before.get(k))}")

  def effect(self, rec, log, n, got):
    """Judges one successful computation from its own distribution calls."""
    np = lib.np
    g = rec.g
    at = g["parents"][g["y"]].index(g["t"])
    mean = {}
    expect(not any(e["var"] == g["t"] for e in log), "not-forced",
           "the treatment's own distribution was used in an intervention")
    for e in log:
      for j, x in zip(g["parents"][e["var"]], e["parents"]):
        if j == g["t"]:
          expect(len(x) == n and len(set(np.asarray(x).tolist())) == 1 and
                 float(x[0]) in (0.0, 1.0), "not-forced",
                 lambda: f"{rec.names[e['var']]} saw treatment {x}")
    ys = [e for e in log if e["var"] == g["y"]]
    for e in ys:
      mean.setdefault(float(e["parents"][at][0]), []).extend(e["value"].tolist())
    expect(sorted(mean) == [0.0, 1.0] and all(len(v) == n for v in mean.values()),
           "not-forced", lambda: "responses drawn: " + str(
               {k: len(v) for k, v in mean.items()}) + f", expected {n} each")
    want = sum(mean[1.0]) / n - sum(mean[0.0]) / n
    expect(abs(float(got) - want) <= 1e-9 * max(1, abs(want)), "effect",
           lambda: f"effect {got}, mean difference of the responses {want}")

  def run(self, ctx, p):
    rec = Recorder(ctx, p["g"])
    if "tasks" in p:
      self.concurrent(ctx, p, rec)
    else:
      self.serial(ctx, p, rec)

  def serial(self, ctx, p, rec):
    for o in p["ops"]:
      rec.log.clear()
      exc = core.make_fault(o["kind"], "distribution")
      rec.fail = o["at"] and dict(at=rec.calls + o["at"], kind=o["kind"],
                                  exc=exc)
      fn = (rec.scm.generate if o["op"] == "gen" else
            rec.scm.compute_treatment_effect)
      got = crash = None
      try:
        if o["line"]:
          with core.CrashAtLine(ctx, o["line"]) as crash:
            got = fn(o["n"])
        else:
          got = fn(o["n"])
      except core.INJECTED as e:
        if crash and crash.fired:
          ctx.fault("interrupt_at_line")
        else:
          expect(rec.fail and e is exc, "exception-replaced", lambda: f"{e!r}")
        ctx.nontrivial = ctx.nontrivial or o["op"] == "effect"
      rec.fail = None
      ctx.ev(o["op"], o["n"], got is not None, [e["var"] for e in rec.log])
      ctx.sig(o["op"], got is not None, len(rec.log), len(p["g"]["dims"]))
      self.intact(rec)
      if got is not None:
        if o["op"] == "gen":
          rec.check_generation(rec.log, o["n"], got)
        else:
          self.effect(rec, rec.log, o["n"], got)
    rec.log.clear()
    d = rec.scm.generate(3)
    rec.check_generation(rec.log, 3, d)

  def concurrent(self, ctx, p, rec):
    sched = core.Scheduler(ctx, p["gaps"], files=["scm.py", "data.py"],
                           interrupt=p["interrupt"])
    rec.who = lambda: sched.current.idx

    def task(k, ops):
      def fn():
        for what, n in ops:
          start = len(rec.log)
          if what == "gen":
            d = rec.scm.generate(n)
          else:
            d = rec.scm.compute_treatment_effect(n)
          mine = [e for e in rec.log[start:] if e["who"] == k]
          ctx.ev("done", k, what, n, len(mine))
          if what == "gen":
            rec.check_generation(mine, n, d)
          else:
            self.effect(rec, mine, n, d)
      return fn

    for k, ops in enumerate(p["tasks"]):
      sched.spawn(task(k, ops), k)
    for t in sched.run():
      if t.exc is not None and not isinstance(t.exc, core.InjectedInterrupt):
        raise t.exc
    ctx.nontrivial = sched.switches >= 2
    ctx.probe("preemptions", sched.switches)
    self.intact(rec)
    rec.log.clear()
    rec.who = lambda: 0
    d = rec.scm.generate(3)
    rec.check_generation(rec.log, 3, d)

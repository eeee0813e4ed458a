"""Whole races find the cheapest estimator (C38); generators keep their law
(C39)."""
import itertools
import math
import os
import random
import sys

from sim import core
from sim.core import expect, lib
from sim.registry import Check, register
from sim.scen.causal import sig
from sim.scen.pure import gen_gaps
from sim.world import ALGS, alg_class

# -- C39 -----------------------------------------------------------------------

Z_MAX = 7.5      # standard errors


class Moments:
  """Collects standardised statistics and judges them."""

  def __init__(self, ctx, what, sizes):
    self.ctx, self.what, self.sizes = ctx, what, sizes

  def mean(self, name, x, want=0.0, sd=None):
    np = lib.np
    n = len(x)
    sd = float(np.std(x)) if sd is None else sd
    got = float(np.mean(x))
    # the second term: rare values that happen not to occur
    tol = Z_MAX * sd / math.sqrt(n) + 30 * (1 + abs(want)) / n
    self.ctx.probe("moments compared")
    expect(abs(got - want) <= tol, "law",
           lambda: f"{self.what}, {n} units: {name} is {got:.4f}, its law says "
           f"{want:.4f} (tolerance {tol:.4f})")

  def pairs(self, name, r, sd):
    """Units of one batch, and of neighbouring ones, are uncorrelated."""
    np = lib.np
    self.mean(f"{name}, correlation of neighbours", r[1:] * r[:-1], 0.0, sd)
    half, mirror, at = [], [], 0
    for n in self.sizes:
      b = r[at:at + n]
      at += n
      h = n // 2
      half.append(b[:h] * b[n - h:])
      mirror.append(b[:h] * b[::-1][:h])
    for k, v in (("of the halves of a batch", half),
                 ("of both ends of a batch", mirror)):
      v = np.concatenate(v)
      if len(v) > 500:
        self.mean(f"{name}, correlation {k}", v, 0.0, sd)

  def noise(self, name, r, against):
    """Standard normal, unit by unit independent, and of `against`."""
    np = lib.np
    n = len(r)
    self.mean(f"mean of {name}", r, 0.0, 1.0)
    self.mean(f"variance of {name}", r * r, 1.0, math.sqrt(2.0))
    self.mean(f"third moment of {name}", r**3, 0.0, math.sqrt(15.0))
    self.mean(f"fourth moment of {name}", r**4, 3.0, math.sqrt(96.0))
    self.pairs(name, r, 1.0)
    for k, a in against.items():
      a = a - np.mean(a)
      self.mean(f"{name} times {k}", r * a)
      self.mean(f"{name} squared times {k}", (r * r - 1) * a)


class Gen:
  """A generator with the law it declares."""

  def __init__(self, p):
    np = lib.np
    self.p = p
    r = random.Random(f"law/{p['seed']}")
    kind = p["kind"]
    if kind == "linear":
      d = p["d"]
      steep = p.get("steep", 1.2)
      self.beta = np.array([r.uniform(-2, 2) for _ in range(d)])
      if p.get("whole"):            # integer coefficients
        self.beta = np.array([r.randrange(-3, 4) for _ in range(d)])
      self.gamma = np.array([r.uniform(-steep, steep) for _ in range(d)])
      if p["plain"]:
        self.gamma = np.zeros(d)
      self.tau = r.choice([r.uniform(-4, 4), 0, 7])
      # the constructor's default, or noise of another scale
      self.sd = p.get("sd")
      more = {} if self.sd is None else dict(
          noise_model=lambda n: self.sd * np.random.normal(size=n))
      if not p["plain"]:
        more["gamma"] = self.gamma.copy()
      self.g = lib.data.LinearDataGenerator("linear", d, self.beta.copy(),
                                            self.tau, **more)
    else:
      np.random.seed(p["seed"] % 2**32)
      make = (lib.example_scm.back_door_scm if kind == "backdoor" else
              lib.example_scm.frontdoor_scm)
      self.g, self.q = make()

  def declared(self):
    """The reported values agree with each other."""
    np, kind = lib.np, self.p["kind"]
    if kind == "linear":
      for k in ("beta", "gamma", "tau"):
        got, want = getattr(self.g, k), getattr(self, k)
        expect(np.array_equal(np.asarray(got), np.asarray(want)), "declared",
               lambda: f"linear generator: {k} is reported as {got!r}, "
               f"it was built with {want!r}")
      return
    q = self.q
    close = lambda k, want: expect(
        abs(q[k] - want) <= 1e-9 * (1 + abs(want)), "declared",
        lambda: f"{kind} example: {k} is reported as {q[k]!r}; from its other "
        f"parameters it is {want!r} ({q})")
    if kind == "backdoor":
      p, a, b, t = q["mu_z"], q["alpha"], q["beta"], q["tau"]
      e = [.5, .5 + a]
      close("var_z", p * (1 - p))
      px = p * e[1] + (1 - p) * e[0]
      close("mu_x", px)
      close("var_x", px * (1 - px))
      atoms = [(wz * (e[z] if x else 1 - e[z]), t * x + b * z)
               for z, wz in ((1, p), (0, 1 - p)) for x in (0, 1)]
    else:
      p, c = q["mu_u"], q["gamma"]
      close("var_u", p * (1 - p))
      px = p * sig(q["alpha_1"]) + (1 - p) * .5
      close("mu_x", px)
      close("var_x", px * (1 - px))
      pz = px * sig(q["beta"]) + (1 - px) * .5
      close("mu_z", pz)
      close("var_z", pz * (1 - pz))
      close("tau", c * (sig(q["beta"]) - .5))
      atoms = []
      for u, wu in ((1, p), (0, 1 - p)):
        ex = sig(q["alpha_1"] * u)
        for x in (0, 1):
          ez = sig(q["beta"] * x)
          for z in (0, 1):
            atoms.append((wu * (ex if x else 1 - ex) * (ez if z else 1 - ez),
                          c * z + q["alpha_2"] * u))
    m = sum(w * v for w, v in atoms)
    close("mu_y", m)
    close("var_y", 1 + sum(w * (v - m)**2 for w, v in atoms))

  def check(self, ctx, d, sizes):
    np = lib.np
    kind = self.p["kind"]
    m = Moments(ctx, f"{kind} generator, batches of {min(sizes)}-{max(sizes)}",
                sizes)
    cov = np.asarray(d.cov, dtype=float)
    x, y = np.asarray(d.exp, dtype=float), np.asarray(d.rsp, dtype=float)
    expect(bool(np.isin(x, (0, 1)).all()), "law",
           lambda: f"{kind} generator: exposures {np.unique(x)[:6]}")
    # responses are continuous: equal ones mean a unit that came twice
    for k, v in [("responses", y)] + ([("covariates", c) for c in cov.T]
                                      if kind == "linear" else []):
      again = len(v) - len(np.unique(v))
      expect(again == 0, "law", lambda: f"{kind} generator: {again} of {len(v)} "
             f"{k} were already delivered")

    def bern(name, v, prob, against):
      expect(bool(np.isin(v, (0, 1)).all()), "law",
             lambda: f"{kind} generator: {name} takes {np.unique(v)[:6]}")
      r = v - prob
      m.mean(f"{name} minus its probability", r, 0.0,
             math.sqrt(float(np.mean(prob * (1 - prob)))))
      for k, a in against.items():
        m.mean(f"({name} minus its probability) times {k}", r * a)
      m.pairs(f"({name} minus its probability)", r, 1.0)

    if kind == "linear":
      cols = {f"x{j}": cov[:, j] for j in range(cov.shape[1])}
      expect(cov.shape[1] == self.p["d"], "law",
             lambda: f"linear generator: covariates of shape {cov.shape}")
      for j, v in enumerate(cols.values()):
        m.noise(f"x{j}", v, {k: a for k, a in cols.items() if a is not v})
      e = 1 / (1 + np.exp(-cov.dot(self.gamma)))
      more = {k + " squared": v * v for k, v in cols.items()}
      more["logit"] = cov.dot(self.gamma)
      bern("exposure", x, e, {**cols, **more})
      m.noise("response noise",
              (y - cov.dot(self.beta) - self.tau * x) / (self.sd or 1), {**cols, "exposure": x, "exposure minus probability": x - e})
      return
    q = self.q
    if kind == "backdoor":
      z = cov[:, 0]
      bern("Z", z, np.full(len(z), q["mu_z"]), {})
      bern("X", x, .5 + q["alpha"] * z, {"Z": z})
      res = y - q["tau"] * x - q["beta"] * z
      against = {"Z": z, "X": x, "XZ": x * z}
    else:
      u, z = cov[:, 0], cov[:, 1]
      bern("U", u, np.full(len(u), q["mu_u"]), {})
      bern("X", x, 1 / (1 + np.exp(-q["alpha_1"] * u)), {"U": u})
      bern("Z", z, 1 / (1 + np.exp(-q["beta"] * x)), {"X": x, "U": u,
                                                      "XU": x * u})
      res = y - q["gamma"] * z - q["alpha_2"] * u
      against = {"U": u, "X": x, "Z": z, "ZU": z * u, "XZ": x * z}
    m.noise("response noise", res, against)
    m.mean("mean exposure", x, q["mu_x"])
    m.mean("mean response", y, q["mu_y"])
    m.mean("squared deviation of the response", (y - q["mu_y"])**2, q["var_y"])

  def effect(self, ctx, n):
    if self.p["kind"] == "linear":
      return
    np = lib.np
    tau = self.q["tau"]
    got = self.g.compute_treatment_effect(n)
    if self.p["kind"] == "backdoor":
      v = 1 + self.q["beta"]**2 * self.q["var_z"]
      sd = math.sqrt(2 * v)
    else:
      sd = math.sqrt(2 * (1 + self.q["gamma"]**2 / 4 + self.q["alpha_2"]**2))
    tol = Z_MAX * sd / math.sqrt(n)
    ctx.probe("effects compared")
    expect(np.ndim(got) == 0 and abs(got - tau) <= tol, "effect",
           lambda: f"{self.p['kind']} example: treatment effect of {n} units "
           f"{got}, declared {tau} (tolerance {tol:.4f})")


@register
class C39(Check):
  id = "C39"
  n = {"quick": 1500, "thorough": 60000}
  real = ["LinearDataGenerator", "back_door_scm, frontdoor_scm", "SCM"]
  stub = ["NumPy random seeds", "thread schedule"]
  assumptions = Check.assumptions + [
      "laws are judged by moments at 3000-12000 units, within 7.5 standard "
      "errors"]
  rule = ("one run = one or two generators with random parameters, read in "
          "batches of many sizes, from several threads, with interrupted reads "
          "and effect computations in between; the pooled units are compared "
          "with the declared law, the declared values with each other; "
          "non-trivial = a read was cut off or preempted, or another instance "
          "was built in between")

  def gen(self, rng, i, tier):
    k = rng.choice([1, 1, 2])
    gens = [dict(kind=rng.choice(["linear", "backdoor", "frontdoor"]),
                 d=rng.choice([1, 2, 3, 6]), seed=rng.randrange(2**31),
                 plain=rng.random() < .25, whole=rng.random() < .2,
                 steep=rng.choice([.3, 1.2, 1.2, 6]),
                 sd=rng.choice([None, None, .01, 3, 50])) for _ in range(k)]
    if k == 2 and rng.random() < .5:
      gens[1]["kind"] = gens[0]["kind"]
    total = rng.choice([3000, 3000, 6000, 12000])
    ops = []
    for g in range(k):
      left = total
      parts = rng.choice([1, 3, 8])
      for _ in range(parts):
        n = max(1, total // parts)
        ops.append(dict(op=rng.choice(["read", "read", "read", "line", "conc",
                                       "seeded"]), g=g, n=n,
                        at=rng.randrange(1, 60), gaps=gen_gaps(rng, 12)))
        left -= n
      for _ in range(rng.choice([0, 2, 20])):
        ops.append(dict(op=rng.choice(["read", "line", "conc", "other",
                                       "effect", "cuteffect"]),
                        g=g, n=rng.choice([1, 1, 2, 5]),
                        at=rng.randrange(1, 80), gaps=gen_gaps(rng, 12)))
      if rng.random() < .2:
        ops.append(dict(op="drip", g=g, n=rng.choice([1500, 3000]),
                        at=rng.choice([1, 1, 2, 3]), gaps=[]))
    rng.shuffle(ops)
    return dict(gens=gens, ops=ops, np=rng.randrange(2**32))

  def valid(self, p):
    if not 1 <= len(p["gens"]) <= 2:
      return False
    for g in p["gens"]:
      if g["kind"] not in ("linear", "backdoor", "frontdoor") or g["d"] not in (
          1, 2, 3, 6) or not 0 < g["steep"] <= 6 or g["sd"] not in (
              None, .01, 3, 50):
        return False
    for k in range(len(p["gens"])):
      if sum(o["n"] for o in p["ops"] if o["g"] == k and o["op"] in (
          "read", "line", "conc", "seeded")) < 2900:
        return False
    if any(o["op"] == "drip" and (o["n"] < 1500 or o["at"] > 3)
           for o in p["ops"]):
      return False
    return all(0 <= o["g"] < len(p["gens"]) and o["n"] >= 1 and o["at"] >= 1 and
               all(x[0] >= 1 for x in o["gaps"]) for o in p["ops"])

  def run(self, ctx, p):
    np = lib.np
    gens = []
    for g in p["gens"]:
      gens.append(Gen(g))
      gens[-1].declared()
    np.random.seed(p["np"] % 2**32)
    pool = [[] for _ in gens]

    drip = [[] for _ in gens]

    def add(k, d, n, pool=pool):
      expect(len(d) == n and len(d.exp) == n and len(d.rsp) == n and
             len(d.cov) == n, "wrong-size",
             lambda: f"{n} units were asked for, {len(d)} came")
      pool[k].append(d)

    for j, o in enumerate(p["ops"]):
      k, n = o["g"], o["n"]
      g = gens[k]
      ctx.tick()
      ctx.ev(o["op"], k, n)
      ctx.sig(o["op"], p["gens"][k]["kind"], n)
      if o["op"] == "read":
        add(k, g.g.generate(n), n)
      elif o["op"] == "drip":       # many tiny reads, also judged apart
        for _ in range(n // o["at"]):
          add(k, g.g.generate(o["at"]), o["at"], drip)
        ctx.nontrivial = True
      elif o["op"] == "seeded":     # the caller reseeds before reading
        np.random.seed((p["np"] + 7919 * j) % 2**32)
        add(k, g.g.generate(n), n)
      elif o["op"] == "line":
        try:
          with core.CrashAtLine(ctx, o["at"]):
            d = g.g.generate(n)
        except core.InjectedInterrupt:
          ctx.fault("interrupt_at_line")
          ctx.nontrivial = True
          d = g.g.generate(n)
        add(k, d, n)
      elif o["op"] == "conc":
        sched = core.Scheduler(ctx, o["gaps"])
        other = gens[-1 - k] if len(gens) == 2 else g
        seeds = [(p["np"] + 104729 * j + 31 * t + 1) % 2**32 for t in (0, 1)]
        half = max(1, n // 2)
        sched.spawn(lambda: g.g.generate(half), seeds[0])
        sched.spawn(lambda: other.g.generate(half), seeds[1])
        a, b = sched.run()
        for t in (a, b):
          if t.exc is not None:
            raise t.exc
        add(k, a.res, half)
        if other is g:
          add(k, b.res, half)
        else:
          add(len(gens) - 1 - k, b.res, half)
          add(k, g.g.generate(half), half)
        ctx.nontrivial = ctx.nontrivial or sched.switches > 0
      elif o["op"] == "other":      # another instance of the same kind
        st = np.random.get_state()
        h = Gen(dict(p["gens"][k], seed=p["gens"][k]["seed"] + 1 + j))
        h.g.generate(n)
        np.random.set_state(st)
        ctx.nontrivial = True
      elif o["op"] == "effect":
        g.effect(ctx, 500 * n)
      elif o["op"] == "cuteffect" and p["gens"][k]["kind"] != "linear":
        try:
          with core.CrashAtLine(ctx, o["at"]):
            g.g.compute_treatment_effect(n)
        except core.InjectedInterrupt:
          ctx.fault("interrupt_at_line")
          ctx.nontrivial = True
    for g, few, many in zip(gens, drip, pool):
      for ds in (few, few + many) if few else (many,):
        d = lib.data.ExpData(
            np.concatenate([np.asarray(a.cov) for a in ds]),
            np.concatenate([np.asarray(a.exp) for a in ds]),
            np.concatenate([np.asarray(a.rsp) for a in ds]))
        g.declared()
        ctx.ev("sums", float(np.sum(d.exp)), float(np.sum(d.rsp)))
        g.check(ctx, d, [len(a) for a in ds])


# -- C38 -----------------------------------------------------------------------


class Model:
  """Confounding paths V_i -> Z_i -> Y, V_i -> X, and X -> W -> Y, all binary.

  Adjusting for one of V_i, Z_i on every path is valid, and so is the
  front-door adjustment by W.  The limits of the fitted functions and the
  score variances are computed by enumeration.
  """

  def __init__(self, p):
    np = lib.np
    r = random.Random(f"race/{p['seed']}")
    M = self.M = p["m"]
    self.pv = [r.uniform(.35, .65) for _ in range(M)]
    self.qz = [sorted(r.uniform(lo, lo + .2) for lo in (.1, .7))
               for _ in range(M)]
    for q in self.qz:
      r.shuffle(q)
    steep = r.choice([.9, 2])
    self.g = [r.uniform(-steep, steep) for _ in range(M)]
    self.b = [r.choice([-1, 1]) * r.uniform(.5, 4) for _ in range(M)]
    r0, r1 = r.choice([(.3, .7), (.3, .6), (.7, .35), (.25, .75)])
    self.r = (r0, r1)
    scale = r.choice([.5, 2, 5])
    self.z0 = (-scale * r0, scale * (1 - r0))   # mean 0 without treatment
    self.tau = (r1 - r0) * scale
    self.s2 = r.choice([.25, 1.0, 4.0])
    pv, qz, g, b, z0 = (np.array(a) for a in (self.pv, self.qz, self.g, self.b,
                                              self.z0))

    def x_cpd(n, parents):
      v = np.stack(parents, axis=1)
      return np.random.binomial(1, 1 / (1 + np.exp(-(v - .5).dot(g))))

    def y_cpd(n, parents):
      return (parents[0] + np.stack(parents[1:], axis=1).dot(b) +
              np.random.normal(size=n) * math.sqrt(self.s2))

    cpds = {"X": x_cpd, "Y": y_cpd,
            "W": lambda n, q: z0[np.random.binomial(1, np.array(self.r)[q[0]])]}
    names, parents = [], {"X": [], "W": ["X"], "Y": ["W"]}
    for i in range(M):
      cpds[f"V{i}"] = lambda n, q, i=i: np.random.binomial(1, pv[i], size=n)
      cpds[f"Z{i}"] = lambda n, q, i=i: np.random.binomial(1, qz[i][q[0]])
      names += [f"V{i}", f"Z{i}"]
      parents.update({f"V{i}": [], f"Z{i}": [f"V{i}"]})
      parents["X"].append(f"V{i}")
      parents["Y"].append(f"Z{i}")
    self.cov = ["W"] + [f"Z{i}" for i in range(M)] + [f"V{i}" for i in range(M)]
    self.scm = lib.scm.SCM("race", names + ["X", "W", "Y"], parents, cpds,
                           self.cov, "X", "Y")
    # every state: probability, x, covariates, mean of Y
    self.states = []
    for v in itertools.product((0, 1), repeat=M):
      wv = math.prod(pv[i] if v[i] else 1 - pv[i] for i in range(M))
      e = sig(sum(g[i] * (v[i] - .5) for i in range(M)))
      for z in itertools.product((0, 1), repeat=M):
        wz = math.prod(qz[i][v[i]] if z[i] else 1 - qz[i][v[i]]
                       for i in range(M))
        for x in (0, 1):
          for k in (0, 1):
            w = wv * wz * (e if x else 1 - e) * (
                self.r[x] if k else 1 - self.r[x])
            self.states.append((w, x, [z0[k], *z, *v],
                                z0[k] + sum(b[i] * z[i] for i in range(M))))
    self.w = np.array([s[0] for s in self.states])
    self.x = np.array([s[1] for s in self.states], dtype=float)
    self.c = np.array([s[2] for s in self.states], dtype=float)
    self.mean = np.array([s[3] for s in self.states], dtype=float)

  def back(self, cols):
    """Asymptotic mean and variance of the back-door score; and one plus the
    variance, per unit, of the relative error of the variance estimate."""
    np = lib.np
    w, x, c = self.w, self.x, self.c[:, cols]
    rows = np.c_[x, c]
    coef = np.linalg.solve((rows * w[:, None]).T.dot(rows),
                           rows.T.dot(w * self.mean))
    th, f = np.zeros(c.shape[1] + 1), np.c_[np.ones(len(c)), c]
    for _ in range(60):
      e = 1 / (1 + np.exp(-f.dot(th)))
      h = (f * (w * e * (1 - e))[:, None]).T.dot(f)
      th = th + np.linalg.solve(h, f.T.dot(w * (x - e)))
    m = lambda t: np.c_[np.full(len(c), t), c].dot(coef)
    own = np.where(x == 1, m(1.0), m(0.0))

    def score(th):
      e = 1 / (1 + np.exp(-f.dot(th)))
      k = x / e - (1 - x) / (1 - e)
      return self.moments(m(1.0) - m(0.0) + (self.mean - own) * k, k)

    got, d = score(th), 1e-5
    # how far the variance moves with the fitted propensity
    grad = np.array([(score(th + d * u)[1] - got[1]) / d
                     for u in np.eye(len(th))]) / got[1]
    return got[:2] + (got[2] + float(grad.dot(np.linalg.solve(h, grad))),)

  def front(self):
    np = lib.np
    w, x, z = self.w, self.x, self.c[:, 0]
    px = float(np.sum(w * x))
    # E[Y | x, z] = z + E[b Z | x]
    rest = self.mean - z
    ey = [float(np.sum((w * rest)[x == t]) / np.sum(w[x == t])) for t in (0, 1)]
    pz = lambda k, t: self.r[t] if k else 1 - self.r[t]
    k = (z == self.z0[1]).astype(int)
    one = lambda t: np.array([pz(a, t) for a in k])
    own = np.where(x == 1, one(1), one(0))
    c = (one(1) - one(0)) / own
    f1 = np.array([sum((self.z0[a] + ey[int(t)]) * (pz(a, 1) - pz(a, 0))
                       for a in (0, 1)) for t in x])
    f2 = z + px * ey[1] + (1 - px) * ey[0]
    f3 = np.array([sum(pz(a, int(t)) * self.z0[a] for a in (0, 1)) for t in x]
                  ) + px * ey[1] + (1 - px) * ey[0]
    wt = x / px - (1 - x) / (1 - px)
    mu = z + np.where(x == 1, ey[1], ey[0])
    return self.moments((self.mean - mu) * c + f1 + wt * (f2 - f3), c)

  def moments(self, a, c):
    np = lib.np
    m = float(np.sum(self.w * a))
    q, r = (a - m)**2, c * c * self.s2
    v = float(np.sum(self.w * (q + r)))
    return m, v, float(np.sum(self.w * (q * q + 6 * q * r + 3 * r * r))) / v**2


class Flaky:
  """The model as a data source that sometimes fails or reads short."""

  def __init__(self, ctx, gen, script):
    self.ctx, self.gen, self.script, self.k = ctx, gen, list(script), 0

  def generate(self, n):
    mode = self.script[self.k] if self.k < len(self.script) else "ok"
    self.k += 1
    self.ctx.tick()
    if mode == "ok":
      return self.gen.generate(n)
    if mode == "short":
      self.ctx.fault("short_read")
      return self.gen.generate(int(n))[:int(n) // 2]
    if mode in ("empty", "tiny"):
      self.ctx.fault(mode + "_read")
      return self.gen.generate(int(n))[:8 if mode == "tiny" else 0]
    self.ctx.fault("source_fault")
    raise core.make_fault(mode, "source")


CALIBRATE = os.environ.get("SIM_CALIBRATE")
MODES = ("short", "tiny", "empty", "fault", "ValueError", "OSError", "MemoryError")


SIZES = [dict(upr=600, rounds=6), dict(upr=600, rounds=15),
         dict(upr=1200, rounds=6), dict(upr=2500, rounds=3)]


@register
class C38(Check):
  id = "C38"
  n = {"quick": 700, "thorough": 20000}
  real = ["three algorithms", "SampleSplittingArm", "AIPWLinearLogistic",
          "FrontDoorLinearFiniteZ, TabularCPD", "SCM", "transformers"]
  stub = ["distributions of a model whose score variances are known",
          "data source wrapper that injects faults"]
  assumptions = Check.assumptions + [
      "an answer counts as right if its true cost-adjusted variance exceeds the "
      "lowest by no more than the resolution at the units read"]
  rule = ("one run = a random model, all its valid adjustments with random "
          "costs as real arms, 1-3 races of any algorithm over them with "
          "failing, short and empty reads, interrupts at executed lines, "
          "resumes and resets, on a source or a dataset; the answer of every "
          "completed race is compared with the exact variances; non-trivial = "
          "a fault was injected or a race was resumed")

  def gen(self, rng, i, tier):
    m = rng.choice([1, 1, 2])
    ops = []
    for k in range(rng.choice([1, 1, 2, 3])):
      if k and rng.random() < .5:
        ops.append(dict(op="reset"))
      ops.append(dict(
          op="run", alg=rng.choice(ALGS), **rng.choice(SIZES), data=rng.random() < .4,
          script=[rng.choice(MODES) if rng.random() < .2 else "ok"
                  for _ in range(12)] if rng.random() < .6 else [],
          warm=rng.choice([0, 0, 0, 12, 30]),
          line=rng.choice([None, None, rng.randrange(1, 6000)])))
    if rng.random() < .35:
      ops[-1].update(rounds=None, data=False)
    order = list(range(2**m + 1))
    rng.shuffle(order)
    return dict(m=m, seed=rng.randrange(2**31), np=rng.randrange(2**32),
                ops=ops, order=order, stable=rng.random() < .7,
                ci=rng.choice(["CLT", "CLT", "CHI2"]),
                costs=[rng.choice([.25, .5, 1, 1, 2, 3, 5])
                       for _ in order])

  def valid(self, p):
    return (p["m"] in (1, 2) and sorted(p["order"]) == list(range(2**p["m"] + 1))
            and len(p["costs"]) == len(p["order"]) and
            all(.2 <= c <= 6 for c in p["costs"]) and
            p["ci"] in ("CLT", "CHI2") and any(o["op"] == "run"
                                               for o in p["ops"]) and
            all(o["op"] == "reset" or (
                o["op"] == "run" and o["alg"] in ALGS and
                600 <= o["upr"] <= 2500 and
                (o["rounds"] is None or 3 <= o["rounds"] <= 15) and
                (o["rounds"] or 1) * o["upr"] <= 9000 and
                all(s == "ok" or s in MODES for s in o["script"]) and
                o["warm"] in (0, 12, 30) and
                (o["line"] is None or o["line"] >= 1)) for o in p["ops"]))

  @staticmethod
  def slack(model, arm, kurt):
    """Factor by which an arm's variance estimate may be off."""
    n = max(arm.get_num_units(), 8)
    f = 1 + 7.5 * math.sqrt((kurt) / (n / 2))
    if arm.name == "front":
      r0, r1 = model.r
      sd = math.sqrt(r0 * (1 - r0) + r1 * (1 - r1)) / math.sqrt(n / 4)
      f *= (1 + 6.5 * sd / abs(r1 - r0))**2
    return f

  def run(self, ctx, p):
    np = lib.np
    model = Model(p)
    M = model.M
    sets = [None] + [[1 + i + (M if s else 0) for i, s in enumerate(side)]
                     for side in itertools.product((0, 1), repeat=M)]
    pr, arms_mod = lib.parameters, lib.arms
    arms, true, name = [], [], []
    for k, cost in zip(p["order"], p["costs"]):
      cols = sets[k]
      if cols is None:
        eta = pr.FrontDoorLinearFiniteZ(1, min_units=5, min_overlap=.05)
        mean, var, kurt = model.front()
        mask = [0]
      else:
        eta = pr.AIPWLinearLogistic(len(cols), min_units=5, min_overlap=.05)
        mean, var, kurt = model.back(cols)
        mask = cols
      assert abs(mean - model.tau) < 1e-6 * (1 + abs(model.tau)) or (
          cols is not None), (mean, model.tau)
      arms.append(arms_mod.SampleSplittingArm(
          "front" if cols is None else "+".join(model.cov[c] for c in cols),
          eta, lib.data.get_coordinate_mask_fn(mask),
          ci_algorithm=arms_mod.CIAlgorithm[p["ci"]], cost=cost,
          stable_splits=p["stable"]))
      name.append(arms[-1].name)
      true.append((cost * var, mean, var, kurt))
    best = min(t[0] for t in true)
    separated = sorted(t[0] for t in true)[1] > 2.2 * best
    np.random.seed(p["np"] % 2**32)
    data = None
    for o in p["ops"]:
      if o["op"] == "reset":
        alg_class("uniform")(arms, model.scm, error_prob=.1).reset()
        continue
      rounds = o["rounds"]
      if rounds is None and not separated:
        rounds = 9000 // o["upr"]
      src = Flaky(ctx, model.scm, o["script"])
      if o["data"] and data is None:
        data = model.scm.generate(24000)
      if o["warm"]:    # a trial with very few units comes first
        alg_class(o["alg"])(arms, model.scm, error_prob=.05,
                            sample_limit=2 * len(arms) * o["warm"],
                            units_per_round=o["warm"]).run()
      limit = None if rounds is None else rounds * o["upr"] * len(arms)
      b = alg_class(o["alg"])(arms, src, error_prob=.05, sample_limit=limit,
                              units_per_round=o["upr"],
                              **({} if limit or o["alg"] == "uniform" else
                                 dict(confidence=.05)))
      res, line = None, o["line"]
      for _ in range(12):
        try:
          if line:
            with core.CrashAtLine(ctx, line):
              line = None
              res = b.run(data if o["data"] else None)
          else:
            res = b.run(data if o["data"] else None)
          break
        except core.InjectedInterrupt:
          ctx.fault("interrupt_at_line")
        except core.INJECTED:
          pass
        ctx.nontrivial = True
      expect(res is not None, "no-answer", lambda: f"{o['alg']} never finished")
      ctx.nontrivial = ctx.nontrivial or bool(ctx.faults)
      ids = sorted(arms.index(a) for a in res.best_arm)
      ctx.ev(o["alg"], rounds, len(res.cum_samples), ids,
             [float(a.var_est) for a in arms])
      ctx.sig(o["alg"], len(res.cum_samples), len(ids))
      ctx.probe("answers compared")
      ctx.probe("answer clear" if separated else "answer within the factor")
      for a, t in zip(arms, true):
        n = a.get_num_units()
        if n < 1000:
          continue
        allow, ratio = self.slack(model, a, t[3]), a.cost * a.var_est / t[0]
        if CALIBRATE:
          sys.__stderr__.write(
              f"VAR {'fb'[a.name != 'front']} "
              f"{abs(math.log(ratio)) / math.log(allow)} {n} {ratio} {allow}\n")
        expect(1 / allow <= ratio <= allow, "variance",
               lambda: f"{o['alg']}: after {n} units {a.name} estimates a "
               f"cost-adjusted variance of {a.cost * a.var_est:.4f}, true "
               f"{t[0]:.4f} (allowed factor {allow:.3f})")
      for k in ids:
        n = arms[k].get_num_units()
        lowest = min(a.cost * a.var_est for a in arms)
        expect(o["alg"] == "se" or arms[k].cost * arms[k].var_est == lowest,
               "not-the-lowest-estimate",
               lambda: f"{o['alg']} answers {name[k]}; estimates "
               f"{[(a.name, a.cost * a.var_est) for a in arms]}")
        low = min(range(len(arms)), key=lambda j: true[j][0])
        allow = math.prod(self.slack(model, arms[j], true[j][3])
                          for j in (k, low))
        if CALIBRATE:
          sys.__stderr__.write(f"CAL {true[k][0] / best} {allow} {len(res.cum_samples)}\n")
        expect(k == low or true[k][0] <= allow * best, "not-the-cheapest",
               lambda: f"{o['alg']} ({'no limit' if limit is None else rounds}"
               f"{' rounds' if limit else ''}, {len(res.cum_samples)} rounds "
               f"used) answers {name[k]} with cost-adjusted variance "
               f"{true[k][0]:.3f}; the lowest is {best:.3f} of "
               f"{[(a, round(t[0], 3)) for a, t in zip(name, true)]}; estimates "
               f"{[round(a.cost * a.var_est, 3) for a in arms]}")
        half = n // 2
        tol = 6.5 * math.sqrt(true[k][2] / half) + 12 * math.sqrt(
            true[k][2]) / half**.75 + .01
        expect(abs(arms[k].ate - true[k][1]) <= tol, "effect",
               lambda: f"{o['alg']} answers {name[k]} after {n} units with effect "
               f"{arms[k].ate:.4f}, true {true[k][1]:.4f} (tolerance {tol:.4f})")

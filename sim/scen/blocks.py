"""The building blocks of causal models: C32."""
import math
import random

from sim import core
from sim.core import expect, lib
from sim.registry import Check, register
from sim.scen.pure import gen_gaps

BLOCKS = ("normal", "normal", "transformed", "structural", "noise", "logistic",
          "logistic_linear", "categorical", "deterministic")
FNS = ("identity", "square", "tanh", "step", "sign", "memo")


def fn_of(name):
  """Element-wise functions; memo hands out its own array again and again."""
  np = lib.np
  if name == "identity":
    return lambda v: v
  if name == "square":
    return lambda v: v**2
  if name == "tanh":
    return np.tanh
  if name == "step":
    return lambda v: (v > 0).astype(int)
  if name == "sign":
    return np.sign
  cache = {}

  def memo(v):
    key = (v.shape, v.tobytes())
    if key not in cache:
      cache[key] = np.cos(v)
    return cache[key]
  return memo


def scalar_fn(name, v):
  return {"identity": lambda: v, "square": lambda: v * v,
          "tanh": lambda: math.tanh(v), "step": lambda: float(v > 0),
          "sign": lambda: float((v > 0) - (v < 0)),
          "memo": lambda: math.cos(v)}[name]()


@register
class C32(Check):
  id = "C32"
  real = ["normal_cpd, transformed_normal_cpd, structural_equation_with_noise, "
          "add_gaussian_noise, logistic_bernoulli_cpd, "
          "logistic_linear_bernoulli_cpd, categorical_conditioning, "
          "deterministic_cpd"]
  stub = ["parents and functions", "thread schedule", "random numbers"]
  n = {"quick": 4000, "thorough": 100000}
  rule = ("one run = a building block with parents of mixed shapes, types and "
          "layouts, called repeatedly, cut off at arbitrary lines, with "
          "functions that fail, and beside other calls under a seeded "
          "line-granular schedule; without noise each unit is compared with "
          "arithmetic on its own parents, with noise the noise must not depend "
          "on the parents and its moments are compared; non-trivial = a call "
          "was cut off, failed or was preempted")

  def gen(self, rng, i, tier):
    kind = rng.choice(BLOCKS)
    n = rng.choice([1, 2, 5, 12])
    k = 1 if kind == "noise" else rng.choice([1, 2, 2, 3])
    dims = [rng.choice([0, 1, 2, 3]) for _ in range(k)]   # 0: (n_units,)
    out = rng.choice([0, 0, 1, 2, 3])                     # 0: (n_units,)
    if kind in ("logistic", "logistic_linear", "categorical"):
      out = 0
    if kind == "noise":
      dims = [out]
    if out and kind in ("normal", "transformed"):
      dims = [x or 1 for x in dims]
    return dict(kind=kind, n=n, dims=dims, out=out,
                ints=[rng.choice(["no", "no", "both", "parent"]) for _ in dims],
                layout=rng.choice(["C", "C", "F", "strided", "readonly"]),
                fns=[rng.choice(FNS) for _ in dims], one=rng.random() < 0.3,
                mean=[round(rng.gauss(0, 2), 3) for _ in range(3)],
                sd=[round(rng.choice([0.5, 1.0, 3.0]), 3) for _ in range(3)],
                rho=rng.choice([0.0, 0.5]), big=rng.random() < 0.3,
                seed=rng.randrange(10**6), np_seed=rng.randrange(10**6),
                cut=[[rng.randrange(1, 14), rng.choice(["interrupt", "alloc"])]
                     for _ in range(rng.choice([0, 1, 2]))],
                fail=core.fault_kind(rng) if rng.random() < 0.3 else None,
                gaps=gen_gaps(rng, 8, 12) if rng.random() < 0.4 else None,
                stat=rng.random() < 0.08)

  def valid(self, p):
    return p["kind"] in BLOCKS and p["n"] >= 1 and len(p["dims"]) >= 1 and (
        len(p["dims"]) == len(p["fns"]) == len(p["ints"])) and (
            p["kind"] != "noise" or p["dims"] == [p["out"]]) and not (
                p["out"] and p["kind"] in ("normal", "transformed") and
                0 in p["dims"]) and not (p["out"] and p["kind"] in (
                    "logistic", "logistic_linear", "categorical")) and all(
                        s > 0 for s in p["sd"])

  # -- material

  def parents(self, p, n, salt=0):
    np = lib.np
    r = random.Random(f"parents/{p['seed']}/{salt}")
    out = []
    for dim, ints in zip(p["dims"], p["ints"]):
      v = [[r.choice([-1, 0, 1, 2]) if ints != "no" else r.gauss(0, 1)
            for _ in range(dim or 1)] for _ in range(n)]
      a = np.array(v, dtype=int if ints != "no" else float).reshape(n, dim or 1)
      if dim == 0:
        a = a[:, 0].copy()
      out.append(self.laid_out(a, p["layout"]))
    return out

  def laid_out(self, a, layout):
    np = lib.np
    if layout == "F":
      return np.asfortranarray(a)
    if layout == "strided":
      big = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
      big[::2] = a
      return big[::2]
    a = a.copy()
    if layout == "readonly":
      a.flags.writeable = False
    return a

  def betas(self, p):
    np = lib.np
    r = random.Random(f"betas/{p['seed']}")
    out = []
    for dim, ints in zip(p["dims"], p["ints"]):
      draw = lambda ints=ints: (r.choice([-2, 1, 3]) if ints == "both" else
                                r.gauss(0, 1))
      if dim == 0:
        out.append(draw())
      elif p["out"] and p["kind"] in ("normal", "transformed"):
        out.append(np.array([[draw() for _ in range(p["out"])]
                             for _ in range(dim)]))
      else:
        out.append(np.array([draw() for _ in range(dim)]))
    return out

  def predictor(self, p, parents, betas):
    """The noiseless value of every unit, by scalar arithmetic."""
    kind, k = p["kind"], p["out"] or 1
    rows = []
    for u in range(len(parents[0])):
      tot = [0.0] * k
      for a, b, f in zip(parents, betas, p["fns"]):
        x = [float(a[u])] if a.ndim == 1 else [float(v) for v in a[u]]
        if kind == "structural":
          for j in range(k):
            tot[j] += scalar_fn(f, sum(x)) * (j + 1)
          continue
        if kind == "noise":
          tot = x
          continue
        if a.ndim == 1:
          dot = [x[0] * float(b)] * k
        elif b.ndim == 2:
          dot = [sum(v * float(b[q][j]) for q, v in enumerate(x))
                 for j in range(k)]
        else:
          dot = [sum(v * float(w) for v, w in zip(x, b))]
        for j in range(k):
          tot[j] += scalar_fn(f, dot[j]) if kind == "transformed" else dot[j]
      rows.append(tot)
    return rows

  def eq(self, p, trip=None):
    """The function of a structural equation, on stacked parents."""
    np = lib.np
    fns = [fn_of(f) for f in p["fns"]]

    def f(x):
      if trip:
        raise trip
      tot, at = 0.0, 0
      for dim, g in zip(p["dims"], fns):
        w = dim or 1
        tot = tot + g(x[:, at:at + w].sum(axis=1)) * 1.0
        at += w
      if p["out"]:
        return np.column_stack([tot * (j + 1) for j in range(p["out"])])
      return tot.reshape(-1, 1) if p["one"] else tot
    return f

  def noise(self, p, zero):
    np = lib.np
    if not p["out"]:
      return p["mean"][0], 0.0 if zero else p["sd"][0]**2
    k = p["out"]
    if p["kind"] == "noise" and k == 1:   # a single column is one-dimensional
      return p["mean"][0], 0.0 if zero else p["sd"][0]**2
    cov = np.array([[(0.0 if zero else p["sd"][a] * p["sd"][b] *
                      (1.0 if a == b else p["rho"])) for b in range(k)]
                    for a in range(k)])
    return np.array(p["mean"][:k]), cov

  def call(self, p, parents, betas, zero, trip=None, fns=None, eq=None):
    scm = lib.scm
    mean, cov = self.noise(p, zero)
    kind = p["kind"]
    if kind == "normal":
      return scm.normal_cpd(parents, betas, mean, cov)
    if kind == "transformed":
      fns = list(fns or [fn_of(f) for f in p["fns"]])
      if trip:
        fns[-1] = self.raiser(trip)
      return scm.transformed_normal_cpd(parents, betas, fns, mean, cov)
    if kind == "structural":
      return scm.structural_equation_with_noise(
          parents, eq or self.eq(p, trip), mean, cov)
    if kind == "noise":
      return scm.add_gaussian_noise(parents[0], mean, cov)
    raise core.PlanInvalid(kind)

  def raiser(self, exc):
    def f(*_):
      raise exc
    return f

  # -- runs

  def run(self, ctx, p):
    if p["kind"] in ("logistic", "logistic_linear"):
      return self.logistic(ctx, p)
    if p["kind"] == "categorical":
      return self.categorical(ctx, p)
    if p["kind"] == "deterministic":
      return self.deterministic(ctx, p)
    return self.gaussian(ctx, p)

  def gaussian(self, ctx, p):
    np = lib.np
    n, betas = p["n"], self.betas(p)
    par = self.parents(p, n)
    keep = self.snap(par, betas)
    fns = [fn_of(f) for f in p["fns"]]
    eq = self.eq(p)
    want = np.array(self.predictor(p, par, betas), dtype=float)
    mean, _ = self.noise(p, True)
    want = want + mean
    flat = not p["out"] or (p["kind"] == "noise" and p["out"] == 1)
    if flat:
      want = want[:, 0]

    def exact(got, how):
      got = np.asarray(got, dtype=float)
      expect(got.shape == want.shape, "shape",
             lambda: f"{p['kind']}: shape {got.shape} instead of {want.shape}")
      # a singular covariance matrix is factorised with rounding errors
      tol = 1e-9 * (1 + np.abs(want))
      expect(bool(np.all(np.abs(got - want) <= tol)), "not-its-parents",
             lambda: f"{p['kind']} without noise, {how}: {got.tolist()} instead "
             f"of {want.tolist()}")
      self.unchanged(p, par, betas, keep)
      ctx.ev(p["kind"], how)

    go = lambda: self.call(p, par, betas, True, fns=fns, eq=eq)
    np.random.seed(p["np_seed"])
    exact(go(), "first")
    exact(go(), "again")
    self.faults(ctx, p, go, exact, lambda e: self.call(p, par, betas, True, e))
    # the same draw added to other parents
    par2 = self.parents(p, n, 1)
    outs = []
    for q in (par, par2):
      np.random.seed(p["np_seed"])
      outs.append(np.asarray(self.call(p, q, betas, False, fns=fns, eq=eq),
                             dtype=float))
    pred = [np.array(self.predictor(p, q, betas), dtype=float)
            for q in (par, par2)]
    if flat:
      pred = [q[:, 0] for q in pred]
    d = (outs[0] - pred[0]) - (outs[1] - pred[1])
    expect(outs[0].shape == want.shape and bool(np.all(
        np.abs(d) <= 1e-8 * (1 + np.abs(pred[0]) + np.abs(pred[1])))),
           "noise-not-additive",
           lambda: f"{p['kind']}: with one seed, the noise is "
           f"{(outs[0] - pred[0]).tolist()} for some parents and "
           f"{(outs[1] - pred[1]).tolist()} for others")
    if p["gaps"]:
      self.concurrent(ctx, p, par, betas, outs[0])
    if p["stat"]:
      self.moments(ctx, p, betas)
    self.unchanged(p, par, betas, keep)
    ctx.sig(p["kind"], n, p["dims"], p["out"], p["ints"], p["layout"])

  def moments(self, ctx, p, betas):
    np = lib.np
    n = 4000
    par = self.parents(p, n, 2)
    np.random.seed(p["np_seed"])
    got = np.asarray(self.call(p, par, betas, False), dtype=float)
    pred = np.array(self.predictor(p, par, betas), dtype=float)
    flat = got.ndim == 1
    res = got.reshape(n, -1) - pred
    mean, cov = self.noise(p, False)
    mean, cov = np.atleast_1d(mean), np.atleast_2d(cov)
    sd = np.sqrt(np.diag(cov))
    m_err = np.abs(res.mean(axis=0) - mean) / (sd / math.sqrt(n))
    c_err = np.abs(np.atleast_2d(np.cov(res.T)) - cov) / (
        np.outer(sd, sd) * math.sqrt(2 / n))
    expect(bool(np.all(m_err < 7)) and bool(np.all(c_err < 7)), "moments",
           lambda: f"{p['kind']}: the noise has mean {res.mean(axis=0)} and "
           f"covariance {np.cov(res.T).tolist()}, {mean} and {cov.tolist()} "
           "were asked for")
    ctx.probe("moments of the noise")
    del flat

  def faults(self, ctx, p, go, judge, failing):
    for line, kind in p["cut"]:
      with core.CrashAtLine(ctx, line, core.make_fault(kind, "cut")) as cr:
        try:
          go()
        except core.INJECTED:
          pass
      if cr.fired:
        ctx.fault(kind + "_at_line")
        ctx.sig("cut", cr.where)
        ctx.nontrivial = True
      judge(go(), "after a call that was cut off")
    if p["fail"] and p["kind"] in ("transformed", "structural", "logistic",
                                   "categorical"):
      exc = core.make_fault(p["fail"])
      try:
        failing(exc)
      except type(exc) as e:
        expect(e is exc or isinstance(e, core.INJECTED), "fault-replaced",
               lambda: f"{p['kind']}: the failure surfaced as {e!r}")
      else:
        expect(False, "fault-swallowed",
               f"{p['kind']}: a failing function did not surface")
      ctx.fault("function_failure")
      ctx.nontrivial = True
      judge(go(), "after a failed call")

  def concurrent(self, ctx, p, par, betas, solo):
    """Beside other calls that have their own random numbers."""
    np = lib.np
    sched = core.Scheduler(ctx, p["gaps"])
    other = self.parents(p, p["n"] + 3, 3)
    sched.spawn(lambda: self.call(p, par, betas, False), p["np_seed"])
    sched.spawn(lambda: self.call(p, other, betas, False), 5)
    tasks = sched.run()
    for t in tasks:
      if t.exc is not None:
        raise t.exc
    got = np.asarray(tasks[0].res, dtype=float)
    expect(got.shape == solo.shape and bool(np.allclose(
        got, solo, rtol=1e-9, atol=1e-9)), "influenced",
           lambda: f"{p['kind']}: beside another call {got.tolist()}, alone "
           f"{solo.tolist()}")
    if sched.switches:
      ctx.nontrivial = True
      ctx.probe("preemptions", sched.switches)

  def snap(self, par, betas):
    np = lib.np
    return [np.asarray(v).tobytes() for v in list(par) + list(betas)], len(par)

  def unchanged(self, p, par, betas, keep):
    expect(self.snap(par, betas) == keep, "parents-modified",
           lambda: f"{p['kind']} modified its parents or weights")

  # -- binary

  def logistic(self, ctx, p):
    np = lib.np
    n = 4000 if p["stat"] else p["n"]
    scale = 2000.0 if p["big"] else 1.0
    par = self.parents(p, n)
    betas = [np.asarray(b) * scale if p["big"] else b for b in self.betas(p)]
    keep = self.snap(par, betas)
    linear = dict(p, kind="normal", out=0)
    logits = np.array(self.predictor(linear, par, betas), dtype=float)[:, 0]

    def f(parents):
      return sum(a.dot(b) for a, b in zip(parents, betas)) * 1.0

    def go():
      if p["kind"] == "logistic":
        return lib.scm.logistic_bernoulli_cpd(par, f)
      return lib.scm.logistic_linear_bernoulli_cpd(par, betas)

    def judge(got, how):
      got = np.asarray(got)
      expect(got.shape == (n,) and set(np.unique(got)) <= {0, 1}, "not-binary",
             lambda: f"{p['kind']}: {got}")
      sure = np.abs(logits) > 50
      expect(np.array_equal(got[sure], (logits[sure] > 0).astype(int)),
             "not-its-logit",
             lambda: f"{p['kind']}, {how}: logits {logits[sure].tolist()} give "
             f"{got[sure].tolist()}")
      self.unchanged(p, par, betas, keep)
      ctx.ev(p["kind"], how, int(got.sum()))

    np.random.seed(p["np_seed"])
    got = go()
    judge(got, "first")
    if p["stat"]:
      e = 1 / (1 + np.exp(-np.clip(logits, -500, 500)))
      z = abs(float((got - e).sum())) / math.sqrt(
          float((e * (1 - e)).sum()) + 1)
      h = np.sign(logits)
      zh = abs(float(((got - e) * h).sum())) / math.sqrt(
          float((e * (1 - e)).sum()) + 1)
      expect(z < 7 and zh < 7, "frequencies",
             lambda: f"{p['kind']}: {int(got.sum())} ones, {e.sum():.1f} "
             "expected")
      ctx.probe("frequencies")
    self.faults(ctx, p, go, judge, lambda e: lib.scm.logistic_bernoulli_cpd(
        par, self.raiser(e)))
    np.random.seed(p["np_seed"])
    solo = np.asarray(go())
    if p["gaps"]:
      sched = core.Scheduler(ctx, p["gaps"])
      sched.spawn(go, p["np_seed"])
      sched.spawn(go, 5)
      tasks = sched.run()
      for t in tasks:
        if t.exc is not None:
          raise t.exc
      expect(np.array_equal(tasks[0].res, solo), "influenced",
             lambda: f"{p['kind']}: beside another call {tasks[0].res}, alone "
             f"{solo}")
      ctx.nontrivial = ctx.nontrivial or sched.switches > 0
    ctx.sig(p["kind"], n, p["dims"], p["ints"], p["layout"], p["big"])

  def categorical(self, ctx, p):
    """Each unit goes, with its own parents, to its own distribution."""
    np = lib.np
    n = p["n"]
    par = self.parents(p, n)
    r = random.Random(f"cat/{p['seed']}")
    at = r.randrange(len(par) + 1)
    cats = np.array([r.randrange(3) for _ in range(n)],
                    dtype=r.choice(["int64", "float64", "int8"]))
    full = par[:at] + [cats] + par[at:]
    keep = self.snap(full, [])
    trip = {}

    def dist(c):
      def f(m, sample):
        if trip.get("exc") is not None and c == trip["cat"]:
          raise trip["exc"]
        expect(m == 1, "one-unit", lambda: f"{m} units were asked for at once")
        v = sum(float(np.sum(np.asarray(x, dtype=float))) * (j + 1)
                for j, x in enumerate(sample))
        return np.array([1000.0 * c + v])
      return f

    dists = [dist(c) for c in range(3)]
    want = [1000.0 * int(cats[u]) + sum(
        float(np.sum(a[u])) * (j + 1) for j, a in enumerate(par))
            for u in range(n)]

    def judge(got, how):
      got = np.asarray(got, dtype=float)
      expect(got.shape == (n,) and bool(np.allclose(got, want, rtol=1e-12,
                                                    atol=1e-9)), "wrong-unit",
             lambda: f"categorical, {how}: {got.tolist()} instead of {want}")
      self.unchanged(p, full, [], keep)
      ctx.ev("categorical", how)

    go = lambda: lib.scm.categorical_conditioning(full, at, dists)

    def failing(exc):
      trip.update(exc=exc, cat=int(cats[-1]))
      try:
        return go()
      finally:
        trip.clear()

    judge(go(), "first")
    self.faults(ctx, p, go, judge, failing)
    if p["gaps"]:
      sched = core.Scheduler(ctx, p["gaps"])
      sched.spawn(go, 1)
      sched.spawn(go, 2)
      for t in sched.run():
        if t.exc is not None:
          raise t.exc
        judge(t.res, "concurrently")
      ctx.nontrivial = ctx.nontrivial or sched.switches > 0
    ctx.sig("categorical", n, p["dims"], at)

  def deterministic(self, ctx, p):
    np = lib.np
    v = p["mean"][0] if p["one"] else int(p["mean"][0])
    a = lib.scm.deterministic_cpd(p["n"], v)
    b = lib.scm.deterministic_cpd(p["n"], v)
    expect(np.array_equal(a, [v] * p["n"]), "value",
           lambda: f"deterministic {v}: {a}")
    a[...] = 77
    expect(np.array_equal(b, [v] * p["n"]) and np.array_equal(
        lib.scm.deterministic_cpd(p["n"], v), [v] * p["n"]), "shared",
           "two samples share memory")
    ctx.fault("result_overwrite")
    ctx.ev("deterministic", p["n"])
    ctx.sig("deterministic", p["n"])

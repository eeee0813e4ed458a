"""Invalid requests are refused before anything changes: C42."""
import math

from sim import core, lab
from sim.core import expect, lib
from sim.registry import Check, register
from sim.scen.pure import gen_gaps
from sim.world import ALGS, alg_class

STEPS = ("up", "up", "race", "gen", "scm", "blocks", "fold", "sub", "eta",
         "eta", "look")
BAD_DELTA = (0, 1, -0.5, 2, math.inf, -math.inf, 1.0, 0.0)
BAD_PROB = (0, 1, -1, 1.5, 0.0, 1.0)
REFUSALS = {
    "delta": BAD_DELTA, "error_prob": BAD_PROB,
    "error_tol": (-1, -1e-9, -math.inf), "confidence": BAD_PROB,
    "neither": (None, math.inf), "k_fold": (0, -1, -7),
    "subsample": (-0.1, 1.1, -1e-9, math.inf), "append": (0, 1, 2),
    "gamma": (0, 1, 2), "fit_width": (1, 2), "score_width": (1, 2),
    "scm": ("parents", "cpds", "treatment", "response", "covariate"),
    "noise": (0, 1), "fns": (0, 1), "index": (0, 1), "truth": (0, 1),
}


class Session:
  """One object of every kind, and what can be asked of them."""

  def __init__(self, p):
    np = lib.np
    self.p = p
    np.random.seed(p["np_seed"])
    self.at = 0
    self.stream = lab.Stream(p["seed"], 2000, p["d"],
                             "finite" if p["eta"] == "front" else "cont")
    self.arms, self.etas = [], []
    for k, spec in enumerate(p["arms"]):
      eta = lab.eta_for(spec)
      self.etas.append(eta)
      self.arms.append(lab.make_arm(spec, eta))
    self.eta = lab.make_eta(p["eta"], p["d"], 2, 0.1)
    d = p["d"]
    self.gen = lib.data.LinearDataGenerator(
        "g", d, np.arange(1.0, d + 1), 1.0, lambda n: np.random.normal(size=n),
        np.full(d, 0.5))
    self.data = self.stream.batch(range(17))
    s = lib.scm
    self.scm_args = dict(
        var_names=["z", "x", "y"],
        parents={"z": [], "x": ["z"], "y": ["z", "x"]},
        cpds={"z": lambda n, pa: np.random.normal(size=n),
              "x": lambda n, pa: s.logistic_linear_bernoulli_cpd(pa, [0.7]),
              "y": lambda n, pa: s.normal_cpd(pa, [1.0, 2.0], 0.0, 1.0)},
        cov_variables=["z"], treatment_variable="x", response_variable="y")
    self.scm = s.SCM("m", **self.scm_args)

  def batch(self, n):
    ids = range(self.at, self.at + n)
    self.at += n
    return self.stream.batch([i % self.stream.n for i in ids])

  # -- valid requests

  def step(self, o):
    """Performs a valid request; returns what it gave, comparable by ==."""
    np = lib.np
    kind, n = o["op"], o["n"]
    arr = lambda *v: tuple(np.asarray(x).tolist() for x in v)
    pack = lambda d: arr(d.cov, d.exp, d.rsp)
    if kind == "up":
      arm = self.arms[o["k"] % len(self.arms)]
      return repr((arm.update(self.batch(n), o["delta"]), lab.state(arm)))
    if kind == "race":
      alg = alg_class(o["alg"])(
          list(self.arms), self.gen, error_prob=o["delta"],
          error_tol=o["tol"], confidence=o["conf"], sample_limit=6 * n + 1,
          units_per_round=n + 1)
      r = alg.run()
      out = repr(([self.arms.index(a) for a in r.best_arm], np.asarray(r.cum_samples).tolist(),
                  [lab.state(a) for a in self.arms]))
      for a in self.arms:
        a.reset()
      return out
    if kind == "gen":
      return repr(pack(self.gen.generate(n)))
    if kind == "scm":
      return repr(pack(self.scm.generate(n + 1)))
    if kind == "blocks":
      x = np.arange(2.0 * (n + 1)).reshape(n + 1, 2)
      return repr(arr(
          lib.scm.add_gaussian_noise(x, np.zeros(2), np.identity(2)),
          lib.scm.transformed_normal_cpd([x], [np.ones(2)], [np.tanh], 0.0, 1.0)))
    if kind == "fold":
      return repr([pack(f) for f in self.data.k_fold(o["k"] + 1)])
    if kind == "sub":
      return repr([pack(f) for f in self.data.subsample(o["share"])])
    if kind == "look":    # asks without changing anything
      return repr([self.look(self.eta)] + [
          (lab.state(a), self.look(e)) for a, e in zip(self.arms, self.etas)])
    self.eta.fit(self.batch(n + 8))
    if not self.eta.has_enough_samples():
      return "unfit"
    return repr(arr(self.eta.calculate_score(self.batch(3))))

  def look(self, eta):
    np = lib.np
    if not eta.has_enough_samples():
      return "unfit"
    kind = type(eta).__name__
    out = [np.asarray(eta.calculate_score(self.stream.batch(range(5)))).tolist()]
    if kind.startswith("AIPW") or kind.startswith("Front"):
      out.append(float(eta.calculate_cs_width(0.1, 1, 0.1)))
    return out

  # -- invalid ones

  def refuse(self, kind, v, k, alg):
    np = lib.np
    s, d = lib.scm, self.p["d"]
    make = lambda **kw: alg_class(alg)(list(self.arms), self.gen, **kw)
    x = np.ones((4, 2))
    if kind == "delta":
      self.arms[k % len(self.arms)].update(self.stream.batch(range(9)), v)
    elif kind == "error_prob":
      make(error_prob=v, confidence=0.1, sample_limit=100)
    elif kind == "error_tol":
      make(error_tol=v, confidence=0.1, sample_limit=100)
    elif kind == "confidence":
      make(confidence=v, sample_limit=100)
    elif kind == "neither":
      make(confidence=None, sample_limit=v)
    elif kind == "k_fold":
      self.data.k_fold(v)
    elif kind == "subsample":
      self.data.subsample(v)
    elif kind == "append":
      e = lib.data.ExpData
      self.data.append([
          e(np.ones((3, d + 1)), np.ones(3), np.ones(3)),
          e(np.ones((3, d)), None, np.ones(3)),
          e(np.ones((3, d)), np.ones(3), None)][v])
    elif kind == "gamma":
      lib.data.LinearDataGenerator(
          "g", d, np.ones(d), 1.0, lambda n: np.zeros(n),
          [np.ones(d + 1), np.ones((d, 1)), np.ones(0)][v])
    elif kind in ("fit_width", "score_width"):
      w = lab.Stream(3, 30, d + v).batch(range(30))
      eta = self.target(k)
      (eta.fit if kind == "fit_width" else eta.calculate_score)(w)
    elif kind == "truth":
      if v:
        eta = lab.make_eta("aipw", d)
        eta.set_to_truth(self.scm)
      else:
        self.eta.set_to_truth(self.scm)
    elif kind == "scm":
      a = dict(self.scm_args, parents=dict(self.scm_args["parents"]),
               cpds=dict(self.scm_args["cpds"]))
      if v in ("parents", "cpds"):
        del a[v]["xyz"[k % 3]]
      elif v == "covariate":
        a["cov_variables"] = ["z", "w"]
      else:
        a[v + "_variable"] = "w"
      s.SCM("bad", **a)
    elif kind == "noise":
      if v:
        s.add_gaussian_noise(np.ones(4), np.zeros((1, 1)), 1.0)
      else:
        s.add_gaussian_noise(x, np.zeros(3), np.identity(3))
    elif kind == "fns":
      s.transformed_normal_cpd([x, x], [np.ones(2)] * 2, [np.tanh] * (1 + 2 * v),
                               0.0, 1.0)
    elif kind == "index":
      s.categorical_conditioning([np.zeros(4), np.ones(4)], 2 + v,
                                 [lambda n, pa: pa[0]])

  def target(self, k):
    """The session's own parameter, or that of an arm."""
    e = ([self.eta, self.eta] + self.etas)[k % 4]
    return self.eta if isinstance(e, lab.ToyEta) else e

  def applicable(self, kind, v, k):
    if kind == "score_width":
      return bool(self.target(k).has_enough_samples())
    if kind == "truth":
      return v or self.p["eta"] in ("aipw", "generic")
    return True


@register
class C42(Check):
  id = "C42"
  real = ["arms, bandits, parameters, ExpData, LinearDataGenerator, SCM and "
          "distribution building blocks"]
  stub = ["unit streams", "thread schedule", "random numbers"]
  n = {"quick": 1500, "thorough": 40000}
  rule = ("one run = a session of valid requests to arms, bandits, parameters, "
          "datasets, generators and causal models, performed twice with one "
          "random seed: alone, and with invalid requests before, between and "
          "(under a seeded line-granular schedule) beside them, some of them "
          "interrupted; every invalid one must be refused, and every valid one "
          "give the same; non-trivial = an invalid request was made")

  def gen(self, rng, i, tier):
    eta = rng.choice(lab.ETAS)
    d = rng.choice([1, 2])
    arms = []
    for _ in range(rng.choice([2, 2, 3])):
      s = lab.gen_arm_spec(rng, etas=[e for e in lab.ETAS if e != "front"] +
                           ["toy"])
      arms.append(dict(s, d=d))
    ops = []
    for _ in range(rng.choice([2, 3, 5])):
      bad = []
      for _ in range(rng.choice([0, 1, 2, 3])):
        kind = rng.choice(sorted(REFUSALS) + ["fit_width"])
        bad.append([kind, rng.randrange(len(REFUSALS[kind])), rng.randrange(4),
                    rng.choice(ALGS),
                    rng.choice([None, None, None, rng.randrange(1, 12)])])
      op = rng.choice(STEPS)
      ops.append(dict(op=op, n=rng.choice([0, 1, 6, 20, 40]),
                      k=rng.randrange(3),
                      delta=rng.choice([0.05, 0.3, 1e-9, 1 - 1e-9]),
                      tol=rng.choice([0, 0.0, 0.5]),
                      conf=rng.choice([None, 0.05, 1e-9, 1 - 1e-9]),
                      share=rng.choice([0, 1, 0.0, 1.0, 0.3, 0.5]),
                      alg=rng.choice(ALGS), bad=bad,
                      beside=gen_gaps(rng, 8, 20) if rng.random() < 0.35 else
                      None))
    return dict(eta=eta, d=d, arms=arms, ops=ops, seed=rng.randrange(10**6),
                np_seed=rng.randrange(10**6))

  def valid(self, p):
    return p["eta"] in lab.ETAS and p["d"] in (1, 2, 3) and len(
        p["arms"]) >= 2 and all(lab.valid_spec(s) and s["d"] == p["d"] and
                                s["eta"] != "front" for s in p["arms"]) and (
        all(o["op"] in STEPS and o["n"] >= 0 and o["k"] >= 0 and
            0 < o["delta"] < 1 and o["tol"] >= 0 and o["alg"] in ALGS and
            0 <= o["share"] <= 1 and
            (o["conf"] is None or 0 < o["conf"] < 1) and
            all(b[0] in REFUSALS and 0 <= b[1] < len(REFUSALS[b[0]]) and
                b[2] >= 0 and b[3] in ALGS and (b[4] is None or b[4] > 0)
                for b in o["bad"]) for o in p["ops"]))

  def run(self, ctx, p):
    np = lib.np
    alone = Session(p)
    want = []
    for o in p["ops"]:
      if o["beside"]:
        want.append(self.tasks(ctx, alone, o, False))
      else:
        want.append(alone.step(o))
      ctx.tick()
    end = self.rng()
    both = Session(p)
    for o, w in zip(p["ops"], want):
      if o["beside"]:
        got = self.tasks(ctx, both, o, True)
      else:
        self.refusals(ctx, both, o)
        got = both.step(o)
      expect(got == w, "changed-by-a-refusal",
             lambda: f"{o['op']} gives {got} after refused requests, {w} "
             "without them")
      ctx.ev(o["op"], len(w), hash_of(w))
      ctx.sig(o["op"], [b[0] for b in o["bad"]])
    expect(self.rng() == end, "random-state",
           "refused requests advanced NumPy's random state")

  def rng(self):
    st = lib.np.random.get_state()
    return st[1].tobytes(), st[2]

  def tasks(self, ctx, s, o, with_bad):
    """The step in a task of its own, beside a task of refused requests."""
    sched = core.Scheduler(ctx, o["beside"])
    sched.spawn(lambda: s.step(o), 11)
    if with_bad:
      sched.spawn(lambda: self.refusals(ctx, s, o), 12)
    tasks = sched.run()
    for t in tasks:
      if t.exc is not None:
        raise t.exc
    if sched.switches:
      ctx.probe("preemptions", sched.switches)
    return tasks[0].res

  def refusals(self, ctx, s, o):
    for kind, j, k, alg, line in o["bad"]:
      v = REFUSALS[kind][j]
      # beside a fit, a parameter may be half fitted
      if o["beside"] and kind == "score_width" and o["op"] in ("eta", "up",
                                                               "race"):
        continue
      if not s.applicable(kind, v, k):
        continue
      ctx.nontrivial = True
      before = self.rng()
      try:
        if line and not o["beside"]:
          with core.CrashAtLine(ctx, line) as cr:
            s.refuse(kind, v, k, alg)
        else:
          s.refuse(kind, v, k, alg)
      except ValueError:
        ctx.fault("refused_request")
        ctx.ev("refused", kind, j)
      except core.INJECTED:
        ctx.fault("interrupt_at_line")
      else:
        expect(False, "not-refused",
               f"{kind}: the invalid value {v!r} was accepted")
      expect(self.rng() == before, "random-state",
             lambda: f"the refused request {kind}={v!r} drew random numbers")


def hash_of(s):
  import hashlib  # pylint: disable=g-import-not-at-top
  return hashlib.sha256(s.encode()).hexdigest()[:12]

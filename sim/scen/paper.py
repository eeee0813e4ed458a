"""The paper's experiments: seeded instances (C26) and their arms (C27)."""
import itertools
import random
import re

from sim import core
from sim.core import Violation, expect, lib
from sim.registry import Check, register
from sim.scen.concurrent import hash_of


def gen_dims(rng, fam, m=None):
  m = m or rng.choice([1, 1, 2, 2, 3])
  hi = 2 if fam == 2 else 3
  if fam == 2 and rng.random() < 0.6:
    hi = 1
  return dict(fam=fam, m=m, z=[rng.randrange(1, hi + 1) for _ in range(m + 1)],
              v=[0] + [rng.randrange(1, hi + 1) for _ in range(m)])


def valid_dims(p):
  hi = 2 if p["fam"] == 2 else 3
  return (p["fam"] in (0, 1, 2) and 1 <= p["m"] <= 4 and
          len(p["z"]) == len(p["v"]) == p["m"] + 1 and p["v"][0] == 0 and
          all(1 <= x <= hi for x in p["z"]) and
          all(1 <= x <= hi for x in p["v"][1:]))


def build_cpds(p, seed):
  f = (lib.paper_utils.get_section_5_1_cpds if p["fam"] == 1 else
       lib.paper_utils.get_section_5_2_cpds)
  return f(list(p["z"]), list(p["v"]), p["m"], seed=seed)


def fingerprint(cp, p, seed=1234, n=6):
  """Samples of every distribution, on fixed parents, under a fixed seed."""
  np = lib.np
  saved = np.random.get_state()
  r = random.Random("parents")
  arr = lambda d: np.array([[r.uniform(-1, 1) for _ in range(d)]
                            for _ in range(n)])
  vs = [arr(d) for d in p["v"][1:]]
  zs = [arr(d) for d in p["z"]]
  x = np.array([k % 2 for k in range(n)])
  try:
    out = {}
    np.random.seed(seed)
    for i in range(1, p["m"] + 1):
      out[f"V{i}"] = cp[f"V{i}"](n, [])
      out[f"Z{i}"] = cp[f"Z{i}"](n, [vs[i - 1]])
    out["X"] = cp["X"](n, [v.copy() for v in vs])
    out["Z0"] = cp["Z0"](n, [x])
    out["Y"] = cp["Y"](n, [z.copy() for z in zs])
    return {k: [np.asarray(v).shape, np.asarray(v, dtype=float).tolist()]
            for k, v in out.items()}
  finally:
    np.random.set_state(saved)


@register
class C26(Check):
  id = "C26"
  n = {"quick": 1200, "thorough": 60000}
  real = ["get_section_5_1_cpds, get_section_5_2_cpds",
          "generate_random_nd_function", "the constructed distributions"]
  stub = ["clocks, OS entropy, Python's random module",
          "activity on NumPy's global generator at executed lines"]
  rule = ("one run = an experiment instance built under several states of "
          "NumPy's global generator, with draws from or reseeding of it at "
          "executed lines of the construction, with an interrupted "
          "construction before, between constructions of other instances, or "
          "by two interleaved threads; the distributions' samples are "
          "compared exactly; non-trivial = the global generator was disturbed "
          "during a construction")

  def gen(self, rng, i, tier):
    fam = 2 if i % 4 == 1 else 1
    p = gen_dims(rng, fam)
    p.update(seed=rng.choice([0, 1, 7, rng.randrange(10**6)]),
             globals=[rng.randrange(2**32) for _ in range(2)],
             at=sorted(rng.randrange(1, 150) for _ in range(
                 rng.choice([1, 3, 20]))),
             how=rng.choice(["draw", "seed", "normal", "ambient"]),
             salt=rng.randrange(10**6),
             abort=rng.choice([None, None, rng.randrange(1, 120)]),
             others=[rng.randrange(10**6) for _ in range(rng.choice([1, 2]))],
             threads=rng.random() < 0.3,
             gaps=[[rng.randrange(1, 20), 0] for _ in range(30)])
    return p

  def valid(self, p):
    return (valid_dims(p) and p["fam"] in (1, 2) and p["seed"] >= 0 and
            len(p["globals"]) == 2 and all(x >= 1 for x in p["at"]) and
            (p["abort"] is None or p["abort"] >= 1) and
            all(0 <= x < 2**32 for x in p["globals"]) and
            p["how"] in ("draw", "seed", "normal", "ambient") and
            all(x >= 0 for x in p["others"]) and
            all(len(x) == 2 and x[0] >= 1 for x in p["gaps"]))

  def same(self, a, b, what):
    expect(a == b, "not-a-function-of-the-seed", lambda: f"{what}: the "
           f"distributions of {sorted(k for k in a if a[k] != b[k])} differ")

  def run(self, ctx, p):
    np = lib.np
    np.random.seed(p["globals"][0])
    first_cp = build_cpds(p, p["seed"])
    ctx.tick()
    first = fingerprint(first_cp, p)
    ctx.ev("first", hash_of(repr(first)))
    if p["abort"]:
      try:
        with core.CrashAtLine(ctx, p["abort"]):
          build_cpds(p, p["seed"])
      except core.InjectedInterrupt:
        ctx.fault("interrupt_at_line")
    core.set_ambient(p["salt"])
    np.random.seed(p["globals"][1])
    how = p["how"]

    def disturb():
      if how == "draw":
        np.random.random(3)
      elif how == "seed":
        np.random.seed(p["salt"])
      elif how == "normal":
        np.random.standard_normal(1)
      else:
        core.set_ambient(p["salt"] + 1)

    with core.AtLines(p["at"], disturb) as al:
      again_cp = build_cpds(p, p["seed"])
    ctx.tick()
    if al.fired:
      ctx.fault("global_generator_disturbed", al.fired)
      ctx.nontrivial = True
    ctx.ev("lines", al.count, al.fired)
    self.same(first, fingerprint(again_cp, p),
              "the same seed under another state of the global generator")
    for s in p["others"]:
      if s == p["seed"]:
        continue
      other = fingerprint(build_cpds(p, s), p)
      ctx.tick()
      ctx.ev("other", s, hash_of(repr(other)))
      expect(other != first, "seed-ignored",
             lambda: f"seeds {p['seed']} and {s} give the same instance")
      for k in ("X", "Y"):      # every family of parameters depends on the seed
        ctx.probe("other seed, other " + k, int(other[k] != first[k]))
    self.same(first, fingerprint(first_cp, p),
              "an earlier instance after building others")
    if p["threads"] and p["fam"] == 1:
      sched = core.Scheduler(ctx, p["gaps"])
      sched.spawn(lambda: build_cpds(p, p["seed"]), p["globals"][0])
      sched.spawn(lambda: build_cpds(p, (p["others"] or [3])[0]),
                  p["globals"][1])
      for t in sched.run():
        if t.exc is not None:
          raise t.exc
      self.same(first, fingerprint(sched.tasks[0].res, p),
                "an instance built while another thread builds one")
    ctx.sig(p["fam"], p["m"], tuple(p["z"]), tuple(p["v"]), how, al.fired,
            p["abort"] is not None, hash_of(repr(first)))


# --------------------------------------------------------------------------


class Tagged:
  """Distributions whose values name variable, column and unit."""

  def __init__(self, ctx, p):
    self.ctx = ctx
    self.p = p
    self.rng = random.Random(f"tagged/{p['seed']}")
    self.code = {}
    k = 1
    names = [f"Z{i}" for i in range(p["m"] + 1)] + [
        f"V{i}" for i in range(1, p["m"] + 1)]
    for name in names:
      dim = (p["z"] if name[0] == "Z" else p["v"])[int(name[1:])]
      self.code[name] = list(range(k, k + dim))
      k += dim
    self.owner = {c: (n, j) for n, cs in self.code.items()
                  for j, c in enumerate(cs)}
    self.n_vars = len(self.code) + 2
    self.drawn = 0
    self.fail_at = None
    self.fail_kind = "fault"

  def cpds(self):
    np = lib.np
    st = dict(units=None)

    def begin():
      self.drawn += 1
      self.ctx.tick()
      if self.fail_at == self.drawn:
        self.ctx.fault("distribution_fault")
        raise core.make_fault(self.fail_kind, "distribution")

    def make(name):
      def f(n, parents):
        begin()
        n = int(n)
        # Fractions must agree across the variables of one unit; they are a
        # function of the position in the call.
        frac = np.array([(u % 8) / 16 for u in range(n)])
        return np.stack([c + frac for c in self.code[name]], axis=1)
      return f

    def x(n, parents):
      begin()
      return np.array([self.rng.randrange(2) for _ in range(int(n))], dtype=int)

    def y(n, parents):
      begin()
      return np.array([(u % 8) / 16 + 10 * self.rng.randrange(-3, 4)
                       for u in range(int(n))])

    del st
    out = {name: make(name) for name in self.code}
    out.update(X=x, Y=y)
    return out

  def columns(self, d, what):
    """(variable, column) of each covariate column; checks rows."""
    np = lib.np
    cov = np.asarray(d.cov, dtype=float)
    if cov.ndim == 1:
      cov = cov.reshape(len(d), -1)
    if not len(cov):
      return None
    code = np.floor(cov).astype(int)
    frac = cov - code
    expect((code == code[0]).all(), "mixed-columns",
           lambda: f"{what}: a column mixes variables")
    y = np.asarray(d.rsp, dtype=float)
    yf = y - 10 * np.round(y / 10)
    expect(len(y) == len(cov) and np.allclose(frac, yf[:, None]), "torn-rows",
           lambda: f"{what}: covariates and responses of different units")
    return [self.owner.get(int(c), ("?", int(c))) for c in code[0]]


def expected_names(m):
  out = []
  for c in itertools.product("ZV", repeat=m):
    out.append(frozenset(f"{k}{i + 1}" for i, k in enumerate(c)))
  return out


def variables_of(name):
  """Variables named by an arm's name."""
  if name.strip("$") == "frontdoor":
    return frozenset(["Z0"])
  vs = re.findall(r"([ZV])_\{?(\d+)\}?", name)
  rest = re.sub(r"[ZV]_\{?\d+\}?", "", name).strip("$ ,{}")
  expect(vs and not rest and len(set(vs)) == len(vs), "name",
         lambda: f"arm name {name!r} does not name its variables")
  return frozenset(k + i for k, i in vs)


@register
class C27(Check):
  id = "C27"
  n = {"quick": 1200, "thorough": 60000}
  real = ["get_section_5_1_example, get_section_5_2_example, "
          "generate_example_from_cpd", "arms, transformers and nuisance "
          "parameters they build", "three bandit algorithms", "SCM"]
  stub = ["the variables' conditional distributions (tagged values)"]
  rule = ("one run = an experiment with 1-4 back-door paths and random "
          "dimensions and costs, whose arms receive tagged data by direct "
          "updates, runs of all three bandits on the generator or a dataset, "
          "resets, failing distributions and interrupts; non-trivial = every "
          "arm's nuisance parameter received data")

  def gen(self, rng, i, tier):
    fam = rng.choice([0, 0, 0, 0, 1, 1, 2])
    p = gen_dims(rng, fam, m=rng.choice([1, 2, 2, 3, 3, 4]) if fam != 2 else
                 rng.choice([1, 2]))
    ops = []
    for _ in range(rng.randrange(1, 5)):
      k = rng.choice(["update", "update", "run", "run", "data", "reset"])
      ops.append(dict(op=k, b=rng.randrange(3), n=rng.choice([0, 1, 5, 40, 200]),
                      arm=rng.randrange(17),
                      line=rng.choice([None, None, None, rng.randrange(1, 300)]),
                      at=rng.choice([None, None, None, rng.randrange(1, 20)]),
                      kind=core.fault_kind(rng)))
    costs = rng.choice([[1, 1, 1], [1, 2, 4], [0.5, 3, 10], [2, 16, 0.25],
                        [rng.randrange(1, 9) for _ in range(3)]])
    p.update(seed=rng.randrange(10**6), costs=costs,
             upr=rng.choice([1, 3, 8, 30]), rounds=rng.choice([0, 1, 2, 5]),
             latex=rng.random() < 0.4, ops=ops)
    return p

  def valid(self, p):
    return (valid_dims(p) and p["upr"] >= 1 and 0 <= p["rounds"] <= 8 and
            len(p["costs"]) == 3 and all(c > 0 for c in p["costs"]) and
            all(o["op"] in ("update", "run", "data", "reset") and
                o["b"] in (0, 1, 2) and 0 <= o["n"] <= 400 and o["arm"] >= 0 and
                o["kind"] in core.FAULT_CLASSES and
                (o["line"] is None or o["line"] >= 1) for o in p["ops"]))

  def build(self, p, tag):
    limit = p["upr"] * p["rounds"] * (2**p["m"] + 1)
    z_cost, v_cost, z0_cost = p["costs"]
    if p["fam"] == 0:
      ci = list(lib.arms.CIAlgorithm)[p["seed"] % 3]
      return lib.paper_utils.generate_example_from_cpd(
          list(p["z"]), list(p["v"]), z_cost, v_cost, z0_cost, p["m"],
          tag.cpds(), limit, p["upr"], p["latex"], ci)
    f = (lib.paper_utils.get_section_5_1_example if p["fam"] == 1 else
         lib.paper_utils.get_section_5_2_example)
    ex = f(z_dim=list(p["z"]), v_dim=list(p["v"]), seed=p["seed"],
           z_cost=z_cost, v_cost=v_cost, z0_cost=z0_cost,
           num_back_door_paths=p["m"], sample_limit=limit,
           units_per_round=p["upr"], latex_names=p["latex"])
    # Same experiment, other distributions: every value says what it is.
    d = ex[0].generate(3)
    expect(lib.np.asarray(d.cov).shape == (3, sum(p["z"]) + sum(p["v"])),
           "wrong-covariates", lambda: f"the experiment's model returns "
           f"covariates of shape {lib.np.asarray(d.cov).shape}")
    for k, fn in tag.cpds().items():
      expect(k in ex[0].cpds, "missing-variable", f"no distribution for {k}")
      ex[0].cpds[k] = fn
    return ex

  def watch(self, ctx, tag, arm, log):
    want = variables_of(arm.name)
    cols = sorted((v, j) for v in want for j in range(len(tag.code.get(v, []))))

    def wrap(name):
      inner = getattr(arm.eta, name)

      def f(d, *a, **k):
        got = tag.columns(d, f"{name} of arm {arm.name}")
        ctx.tick()
        if got is not None:
          log.append(arm.name)
          expect(sorted(got) == cols, "wrong-variables",
                 lambda: f"arm {arm.name}: its nuisance parameter's {name} "
                 f"receives columns {got}, expected {cols}")
        return inner(d, *a, **k)
      setattr(arm.eta, name, f)

    wrap("fit")
    wrap("calculate_score")

  def run(self, ctx, p):
    lib.np.random.seed(p["seed"] % 2**32)
    tag = Tagged(ctx, p)
    gen, arms, *bandits = self.build(p, tag)
    names = [a.name for a in arms]
    sets = [variables_of(n) for n in names]
    want = expected_names(p["m"]) + [frozenset(["Z0"])]
    key = lambda s: sorted(s)
    expect(sorted(sets, key=key) == sorted(want, key=key), "arms",
           lambda: f"arms {names}; expected a front-door arm and one back-door "
           f"arm for each of the {2**p['m']} choices")
    z_cost, v_cost, z0_cost = p["costs"]
    unit = {"Z": z_cost, "V": v_cost}
    for a, s in zip(arms, sets):
      c = z0_cost if s == {"Z0"} else sum(unit[v[0]] for v in s)
      expect(abs(a.cost - c) < 1e-9, "cost",
             lambda: f"arm {a.name}: cost {a.cost}, its variables cost {c}")
    log = []
    for a in arms:
      self.watch(ctx, tag, a, log)
    ctx.ev("arms", names)
    for o in p["ops"]:
      self.op(ctx, p, o, tag, gen, arms, bandits)
      ctx.sig(o["op"], o["b"], o["n"], len(log))
    # Faults have stopped: every arm gets an ordinary batch.
    tag.fail_at = None
    d = gen.generate(40)
    for a in arms:
      a.update(d, .05)
    ctx.nontrivial = set(log) == set(names)
    ctx.sig(tuple(sorted(map(str, map(sorted, sets)))), tuple(p["z"]),
            tuple(p["v"]))
    expect(ctx.nontrivial, "no-data",
           lambda: f"arms {sorted(set(names) - set(log))} received no data")

  def op(self, ctx, p, o, tag, gen, arms, bandits):
    b = bandits[o["b"] % 3]
    tag.fail_at = o["at"] and tag.drawn + o["at"]
    tag.fail_kind = o["kind"]
    ctx.ev(o["op"], o["b"], o["n"])
    line = core.CrashAtLine(ctx, o["line"]) if o["line"] else None
    try:
      if line:
        line.__enter__()
      try:
        if o["op"] == "update":
          arms[o["arm"] % len(arms)].update(gen.generate(o["n"]), .05)
        elif o["op"] == "run":
          r = b.run()
          self.result(r, arms)
        elif o["op"] == "data":
          d = gen.generate(o["n"])
          r = b.run(d)
          self.result(r, arms)
        else:
          b.reset()
      finally:
        if line:
          line.__exit__()
    except core.INJECTED:
      if line and line.fired:
        ctx.fault("interrupt_at_line")
    finally:
      tag.fail_at = None

  def result(self, r, arms):
    expect(set(r.ucb_by_arm) == set(arms), "arms",
           "the bandit races other arms than the experiment's")
    if not r.best_arm:
      raise Violation("arms", "no best arm")

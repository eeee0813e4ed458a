"""Concurrent runs in one process (C13) and reproducibility (C14)."""
import gc
import json
import os
import random
import subprocess
import sys

from sim import core, lab
from sim.core import expect, lib
from sim.registry import Check, register
from sim.scen import bandit
from sim.world import ALGS, World, alg_class, unit_data


# -- shared sources ---------------------------------------------------------


def gen_source(rng, kinds=("linear", "backdoor", "frontdoor", "cat", "graph",
                           "graph")):
  kind = rng.choice(kinds)
  return dict(kind=kind, d=1 if kind in ("backdoor", "frontdoor") else 2,
              seed=rng.randrange(10**6))


def make_source(s):
  """A real data generator of the package; draws only from np.random."""
  np = lib.np
  r = random.Random(f"source/{s['seed']}")
  if s["kind"] == "linear":
    d = s["d"]
    return lib.data.LinearDataGenerator(
        "linear", d, np.array([r.uniform(-1, 1) for _ in range(d)]), 1.0,
        np.random.randn, np.array([r.uniform(-1, 1) for _ in range(d)]))
  if s["kind"] == "graph":
    return make_graph(r)
  if s["kind"] == "cat":
    scm = lib.scm
    ga, be = r.uniform(-1, 1), r.uniform(-1, 1)
    dist = [lambda n, p: np.random.normal(p[0], 1, size=n),
            lambda n, p: np.random.normal(p[0] + be, 1, size=n)]
    cpds = {
        "V": lambda n, p: np.random.normal(size=n),
        "W": lambda n, p: np.random.binomial(1, .5, size=n),
        "X": lambda n, p: scm.logistic_linear_bernoulli_cpd(p, [ga]),
        "Y": lambda n, p: scm.categorical_conditioning(p, 1, dist),
    }
    return scm.SCM("cat", ["V", "W", "X", "Y"],
                   {"V": [], "W": [], "X": ["V"], "Y": ["V", "X"]}, cpds,
                   ["V", "W"], "X", "Y")
  st = np.random.get_state()
  np.random.seed(s["seed"])
  g = (lib.example_scm.back_door_scm() if s["kind"] == "backdoor" else
       lib.example_scm.frontdoor_scm())[0]
  np.random.set_state(st)
  return g


def make_graph(r):
  """A random Gaussian/Bernoulli model with covariates in any order, some of
  them named twice."""
  np, scm = lib.np, lib.scm
  k = r.choice([2, 3, 4])
  names = r.sample(["age", "Bmi", "c0", "Zed", "v", "w2", "KEY", "q"], k)
  parents = {v: r.sample(names[:i], r.randrange(0, min(i, 2) + 1))
             for i, v in enumerate(names)}
  parents["X"] = r.sample(names, r.choice([1, 2]))
  parents["Y"] = ["X"] + r.sample(names, r.choice([0, 1, 2]))

  def normal(ps):
    b = [r.uniform(-1, 1) for _ in ps]
    if not ps:
      return lambda n, p: np.random.normal(size=n)
    return lambda n, p: scm.normal_cpd(p, [np.array(x) for x in b], 0.5, 2.0)

  cpds = {v: normal(parents[v]) for v in names + ["Y"]}
  g = [r.uniform(-1, 1) for _ in parents["X"]]
  cpds["X"] = lambda n, p: scm.logistic_linear_bernoulli_cpd(p, g)
  cov = [r.choice(names) for _ in range(r.choice([1, 2, 3, 5]))]
  return scm.SCM("graph", names + ["X", "Y"], parents, cpds, cov, "X", "Y")


def make_trans(kind, dim):
  if kind == "mask":
    return lib.data.get_coordinate_mask_fn(list(range(dim)))
  return lib.data.get_identity_fn()


def gen_real(rng, d):
  """Configuration of a bandit run over real arms."""
  K = rng.choice([2, 2, 3])
  etas = ["toy", "toy", "aipw", "linreg", "linbin", "boost"]
  upr = rng.choice([2, 5, 12, 24])
  arms = []
  for _ in range(K):
    sp = lab.gen_arm_spec(rng, etas, boot=0.2)
    sp["d"] = d
    sp["cost"] = rng.choice([1, 1, 2])
    arms.append(sp)
  return dict(what="real", alg=rng.choice(ALGS), arms=arms, upr=upr,
              limit=upr * rng.choice([1, 2, 4, 7, 10]),
              error_prob=rng.choice([.05, .1, .3]), again=rng.random() < 0.3)


def valid_real(t, d):
  return (len(t["arms"]) >= 2 and t["upr"] >= 1 and t["limit"] >= 0 and
          0 < t["error_prob"] < 1 and t["alg"] in ALGS and all(lab.valid_spec(a) and a["d"] == d and
                                   a["cost"] > 0 and a["eta"] != "front"
                                   for a in t["arms"]))


def run_real(t, gen, dataset, trans):
  """Runs a bandit over real arms; the result as plain data."""
  arms = [lab.make_arm(a, lab.eta_for(a), tr) for a, tr in
          zip(t["arms"], trans)]
  b = alg_class(t["alg"])(arms, gen, error_prob=t["error_prob"],
                          sample_limit=t["limit"], units_per_round=t["upr"])
  out = []
  for _ in range(2 if t["again"] else 1):
    r = b.run(dataset)
    by = lambda m: [[float(x) for x in m[a]] for a in arms]
    out.append([by(r.lcb_by_arm), by(r.ucb_by_arm), by(r.var_est_by_arm),
                by(r.samples_by_arm), [float(x) for x in r.cum_samples],
                sorted(arms.index(a) for a in r.best_arm)])
  st = [lab.state(a) for a in arms]
  out.append([[float(x) if x is not None else None
               for x in (*s["ci"], s["var"], s["ate"], s["pulls"], s["units"])]
              for s in st])
  return out


# --------------------------------------------------------------------------


@register
class C13(Check):
  id = "C13"
  n = {"quick": 2500, "thorough": 150000}
  real = ["three algorithms, BanditData", "SampleSplittingArm, BootstrapArm",
          "nuisance parameters", "ExpData", "transformers",
          "LinearDataGenerator, SCM, example models"]
  stub = ["thread scheduler (line-granular, seeded)",
          "per-task streams of NumPy random numbers",
          "in half of the runs scripted arms"]
  rule = ("one run = 2-3 bandit runs as cooperating threads, preempted at "
          "executed source lines chosen by the run seed, sharing a dataset or "
          "generator and transformers, one of them possibly interrupted; each "
          "result is compared with the run executed alone; non-trivial = at "
          "least 3 preemptions")
  measure = ("distinct sequences of (from task, to task, function) over the "
             "preemptions of a run")

  def gen(self, rng, i, tier):
    n = rng.choice([2, 2, 3])
    if rng.random() < 0.5:
      mode = "data"
      tasks = []
      for _ in range(n):
        p = bandit.gen_base(rng, n=1, modes=("data",), p_conv=0)
        p["what"] = "script"
        p["cfg"]["limit"] = min(p["cfg"]["limit"], 12 * p["cfg"]["upr"])
        p["alg"] = rng.choice(ALGS)
        tasks.append(p)
      plan = dict(mode=mode, tasks=tasks, width=2,
                  data_len=rng.choice([0, 7, 40, 100]))
    else:
      src = gen_source(rng, ("linear", "cat", "backdoor"))
      plan = dict(mode=rng.choice(["gen", "gen", "dataset"]), source=src,
                  data_len=rng.choice([10, 60, 150]),
                  trans=rng.choice(["id", "mask"]), share_trans=True,
                  tasks=[gen_real(rng, src["d"]) for _ in range(n)])
    plan["seeds"] = [rng.randrange(2**32) for _ in range(n)]
    style = rng.choice([1, 3, 10, 40])
    plan["gaps"] = [[rng.randrange(1, style * 3), rng.randrange(3)]
                    for _ in range(rng.choice([4, 12, 40, 120]))]
    if rng.random() < 0.25:
      plan["interrupt"] = [rng.randrange(n), rng.randrange(1, 300)]
    return plan

  def valid(self, plan):
    n = len(plan["tasks"])
    ok = n >= 2 and len(plan["seeds"]) >= n and plan["data_len"] >= 0
    ok = ok and all(len(g) == 2 and g[0] >= 1 for g in plan["gaps"])
    if plan["mode"] != "data":
      return ok and all(valid_real(t, plan["source"]["d"]) for t in plan["tasks"])
    c = bandit.BanditCheck()
    return ok and all(t["cfg"]["limit"] is not None and
                      t["cfg"]["limit"] < 1e9 and c.valid(t) and
                      t["alg"] in ALGS for t in plan["tasks"])

  def build(self, ctx, plan, shared):
    """One function per task; shared = the objects they have in common."""
    fns = []
    for t in plan["tasks"]:
      if plan["mode"] == "data":
        def fn(t=t):
          w = World(core.Ctx(), t)
          w.dataset = shared["dataset"]
          rec = w.run(t["alg"], "data")
          if rec.exc is not None:
            raise rec.exc
          return [rec.table(), [(u[1], u[2], u[3]) for u in rec.ups]]
      else:
        def fn(t=t):
          return run_real(t, shared["gen"], shared["dataset"], shared["trans"])
      fns.append(fn)
    return fns

  def shared(self, plan):
    if plan["mode"] == "data":
      return dict(dataset=unit_data(range(plan["data_len"])))
    np = lib.np
    gen = make_source(plan["source"])
    ds = None
    if plan["mode"] == "dataset":
      np.random.seed(plan["source"]["seed"])
      ds = gen.generate(plan["data_len"])
    dim = plan["source"]["d"]
    return dict(dataset=ds, gen=gen,
                trans=[make_trans(plan["trans"], dim)] * 4)

  def run(self, ctx, plan):
    np = lib.np
    solo = []
    for k in range(len(plan["tasks"])):
      fn = self.build(ctx, plan, self.shared(plan))[k]
      np.random.seed(plan["seeds"][k])
      solo.append(repr(fn()))
      ctx.ev("solo", k, len(solo[-1]), hash_of(solo[-1]))
    sh = self.shared(plan)
    intr = plan.get("interrupt")
    sched = core.Scheduler(ctx, plan["gaps"], interrupt=intr)
    for k, fn in enumerate(self.build(ctx, plan, sh)):
      sched.spawn(fn, plan["seeds"][k])
    tasks = sched.run()
    ctx.nontrivial = sched.switches >= 3
    ctx.probe("preemptions", sched.switches)
    ctx.tick(sum(t.lines for t in tasks))
    for k, t in enumerate(tasks):
      if isinstance(t.exc, core.InjectedInterrupt):
        expect(intr and intr[0] == k, "foreign-interrupt",
               lambda: f"run {k} received the interrupt of run {intr}")
        continue
      if t.exc is not None:
        raise t.exc
      got = repr(t.res)
      ctx.ev("task", k, hash_of(got))
      expect(got == solo[k], "influenced",
             lambda: f"run {k} ({plan['tasks'][k]['alg']}), interleaved with "
             f"the other runs, gives\n    {diff(got, solo[k])}")


def hash_of(s):
  import hashlib  # pylint: disable=g-import-not-at-top
  return hashlib.sha256(s.encode()).hexdigest()[:12]


def diff(a, b):
  k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y),
           min(len(a), len(b)))
  lo = max(0, k - 40)
  return f"...{a[lo:k + 80]}...\n    alone: ...{b[lo:k + 80]}..."


# --------------------------------------------------------------------------


ACTIVITIES = ("script", "real", "arm", "gen", "paper", "folds", "effect")


def gen_activity(rng, kinds=ACTIVITIES):
  """Something the package does that uses random numbers."""
  k = rng.choice(kinds)
  if k == "script":
    p = bandit.gen_base(rng, n=rng.choice([1, 2]), modes=("gen", "data"),
                        p_conv=0)
    p["cfg"]["limit"] = min(p["cfg"]["limit"], 15 * p["cfg"]["upr"])
    p["what"] = "script"
    return p
  if k == "real":
    s = gen_source(rng, ("linear", "cat", "backdoor"))
    t = gen_real(rng, s["d"])
    t["source"] = s
    t["data_len"] = rng.choice([None, None, 80])
    return t
  if k == "arm":
    sp = lab.gen_arm_spec(rng, ("toy",) + lab.ETAS, boot=0.35)
    return dict(what="arm", spec=sp, sizes=[rng.randrange(0, 30) for _ in
                                            range(rng.choice([2, 4]))] + [30],
                seed=rng.randrange(10**6))
  if k == "gen":
    return dict(what="gen", source=gen_source(rng), sizes=[
        rng.choice([0, 1, 5, 20]) for _ in range(3)])
  if k == "effect":
    return dict(what="effect", source=gen_source(
        rng, ("backdoor", "frontdoor", "cat", "graph")), n=rng.choice([1, 30]))
  if k == "paper":
    m = rng.choice([1, 2])
    return dict(what="paper", fam=rng.choice([1, 1, 2]), m=m,
                z=[rng.choice([1, 2]) for _ in range(m + 1)],
                v=[0] + [rng.choice([1, 2]) for _ in range(m)],
                seed=rng.randrange(1000), n=rng.choice([3, 20]))
  return dict(what="folds", n=rng.choice([0, 1, 2, 9, 30]),
              ops=[rng.choice([["k", 1], ["k", 2], ["k", 5], ["s", 0.5],
                               ["s", 0.1], ["s", 1]]) for _ in range(3)])


def valid_activity(a):
  k = a["what"]
  if k == "script":
    return a["cfg"]["limit"] is not None and a["cfg"]["limit"] < 1e9 and (
        bandit.BanditCheck().valid(a))
  if k == "real":
    return valid_real(a, a["source"]["d"])
  if k == "arm":
    return lab.valid_spec(a["spec"]) and all(x >= 0 for x in a["sizes"])
  if k == "gen":
    return all(x >= 0 for x in a["sizes"]) and a["source"]["d"] in (1, 2)
  if k == "effect":
    return a["n"] >= 1 and a["source"]["kind"] in (
        "backdoor", "frontdoor", "cat", "graph")
  if k == "paper":
    return (a["m"] in (1, 2) and len(a["z"]) == len(a["v"]) == a["m"] + 1 and
            all(x in (1, 2) for x in a["z"]) and a["v"][0] == 0 and
            all(x in (1, 2) for x in a["v"][1:]) and a["n"] >= 1 and
            a["fam"] in (1, 2))
  return a["n"] >= 0 and a["what"] == "folds"


def flat(d):
  f = lambda x: None if x is None else lib.np.asarray(x, dtype=float).tolist()
  return [f(d.cov), f(d.exp), f(d.rsp)]


def do_activity(a):
  """Performs the activity; returns plain data."""
  np = lib.np
  k = a["what"]
  if k == "script":
    w = World(core.Ctx(), a)
    out = []
    for op in a["ops"]:
      if op["op"] == "reset":
        w.reset(op["alg"])
      else:
        rec = w.run(op["alg"], op["mode"])
        out.append([rec.table(), [u[1:4] for u in rec.ups]])
    return out
  if k == "real":
    gen = make_source(a["source"])
    ds = gen.generate(a["data_len"]) if a["data_len"] else None
    tr = [make_trans("id", a["source"]["d"])] * len(a["arms"])
    return run_real(a, gen, ds, tr)
  if k == "arm":
    sp = a["spec"]
    st = lab.stream_for(sp, a["seed"], sum(a["sizes"]))
    arm = lab.make_arm(sp, lab.eta_for(sp))
    out, pos = [], 0
    for n in a["sizes"]:
      arm.update(st.batch(range(pos, pos + n)), 0.1)
      pos += n
      s = lab.state(arm)
      out.append([float(x) for x in (*s["ci"], s["var"], s["ate"], s["units"])])
    return out
  if k == "gen":
    gen = make_source(a["source"])
    return [flat(gen.generate(n)) for n in a["sizes"]]
  if k == "effect":
    return float(make_source(a["source"]).compute_treatment_effect(a["n"]))
  if k == "paper":
    f = (lib.paper_utils.get_section_5_1_cpds if a["fam"] == 1 else
         lib.paper_utils.get_section_5_2_cpds)
    cp = f(a["z"], a["v"], a["m"], seed=a["seed"])
    out, vs = [], []
    for i in range(1, a["m"] + 1):
      v = cp[f"V{i}"](a["n"], [])
      z = cp[f"Z{i}"](a["n"], [v])
      vs.append(v)
      out += [v, z]
    out.append(cp["X"](a["n"], vs))
    return [np.asarray(x, dtype=float).tolist() for x in out]
  d = unit_data(range(a["n"]))
  out = []
  for op, x in a["ops"]:
    parts = d.k_fold(x) if op == "k" else d.subsample(x)
    out.append([flat(p) for p in parts])
  return out


def seeded_activity(a, seed, salt):
  core.set_ambient(salt)
  lib.np.random.seed(seed % 2**32)
  return repr(do_activity(a))


_CHILD = """
import json, sys
from sim import core
core.boot()
from sim.scen import concurrent
out, sys.stdout = sys.stdout, sys.stderr    # the package prints
batch, salt = json.loads(sys.stdin.read())
out.write(json.dumps([concurrent.seeded_activity(a, seed, salt)
                      for a, seed in batch]))
"""


def in_fresh_interpreter(batch, salt, hashseed):
  """The results of the activities [activity, seed] in a new interpreter."""
  env = dict(os.environ, PYTHONHASHSEED=str(hashseed),
             PYTHONPATH=os.path.dirname(os.path.dirname(os.path.dirname(
                 os.path.abspath(__file__)))))
  p = subprocess.run([sys.executable, "-c", _CHILD], env=env, text=True,
                     input=json.dumps([batch, salt]), capture_output=True,
                     check=False)
  if p.returncode:
    raise RuntimeError("fresh interpreter failed: " + p.stderr[-2000:])
  return json.loads(p.stdout)


@register
class C14(Check):
  id = "C14"
  n = {"quick": 2000, "thorough": 120000}
  real = ["the whole package (algorithms, arms, parameters, data, causal "
          "models, experiment builders)"]
  stub = ["clocks, OS entropy, Python's random module (seeded by the run)",
          "in some runs scripted arms"]
  rule = ("one run = an activity of the package (bandit runs, arm updates, data "
          "generation, folds, experiment instances) executed under a NumPy "
          "seed, then again after unrelated activity in the same process under "
          "other clock and entropy values; one run in 50 repeats 25 activities "
          "in a fresh interpreter with another hash seed; results compared exactly; "
          "non-trivial = the activity drew from NumPy's generator")

  def gen(self, rng, i, tier):
    return dict(act=gen_activity(rng), seed=rng.randrange(2**32),
                noise=[gen_activity(rng) for _ in range(rng.choice([0, 1, 3]))],
                repeat=rng.random() < 0.5, salts=[rng.randrange(10**6)
                                                  for _ in range(3)],
                fresh=[[gen_activity(rng, ACTIVITIES + ("gen", "effect")),
                        rng.randrange(2**32)]
                       for _ in range(25 if i % 50 == 7 else 0)],
                hashseed=rng.randrange(1, 10**6),
                garbage=rng.randrange(0, 2000))

  def valid(self, plan):
    return len(plan["salts"]) == 3 and all(
        valid_activity(a) for a in [plan["act"]] + plan["noise"] +
        [b[0] for b in plan["fresh"]]) and (
            0 <= plan["garbage"] <= 10**5)

  def run(self, ctx, plan):
    np = lib.np
    a, seed = plan["act"], plan["seed"]
    first = seeded_activity(a, seed, plan["salts"][0])
    ctx.ev("first", a["what"], hash_of(first))
    ctx.tick()
    if plan["repeat"]:
      again = seeded_activity(a, seed, plan["salts"][1])
      expect(again == first, "not-reproducible",
             lambda: f"{a['what']}: the same call with the same seed gives\n    "
             f"{diff(again, first)}")
    junk = [object() for _ in range(plan["garbage"])]
    for b in plan["noise"]:
      do_activity(b)
      ctx.tick()
    ctx.fault("ambient_change")
    if plan["noise"]:
      ctx.fault("earlier_activity", len(plan["noise"]))
    del junk[::2]
    gc.collect()
    np.random.seed(plan["salts"][2])
    np.random.standard_normal(3)       # leaves half a Gaussian pair behind
    later = seeded_activity(a, seed, plan["salts"][2])
    expect(later == first, "not-reproducible",
           lambda: f"{a['what']}: after unrelated activity the same seed gives"
           f"\n    {diff(later, first)}")
    if plan["fresh"]:
      ctx.fault("fresh_interpreter_other_hash_seed")
      here = [seeded_activity(b, sd, plan["salts"][0])
              for b, sd in plan["fresh"]]
      ctx.tick(len(here))
      there = in_fresh_interpreter(plan["fresh"], plan["salts"][1] + 1,
                                   plan["hashseed"])
      for (b, _), x, y in zip(plan["fresh"], here, there):
        ctx.probe("fresh interpreter:" + b["what"])
        expect(x == y, "not-reproducible",
               lambda: f"{b['what']}: a fresh interpreter with another hash "
               f"seed gives\n    {diff(y, x)}")
    ctx.sig(a["what"], len(first), hash_of(first), [b["what"] for b in
                                                    plan["noise"]])
    ctx.probe("activity:" + a["what"])
    ctx.nontrivial = True

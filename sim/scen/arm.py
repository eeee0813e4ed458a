"""Scenarios over real arms and nuisance parameters: C12, C15-C19, C28-C30."""
import copy
import math
import random

from sim import core, lab
from sim.core import Violation, expect, lib
from sim.lab import INF
from sim.registry import Check, register

REAL = ["SampleSplittingArm, BootstrapArm", "ExpData (k_fold, subsample, append)",
        "nuisance parameters (AIPW linear/kernel/boosting, front-door, linear "
        "regression, linear binary)", "TabularCPD", "scikit-learn, SciPy"]
STUB = ["unit stream (tagged units, own generator)",
        "recording wrapper around the nuisance parameter; in some runs a toy "
        "nuisance parameter"]


class Rig:
  """One real arm with a recording nuisance parameter and a unit stream."""

  def __init__(self, ctx, spec, stream, transformer=None, cols=None):
    self.ctx = ctx
    self.spec = spec
    self.stream = stream
    self.rec = lab.RecEta(lab.eta_for(spec), stream, cols)
    self.arm = lab.make_arm(spec, self.rec, transformer)
    self.batches = []   # ids of the batches held since the last reset
    self.pos = 0
    self.updates = 0    # since reset

  def next_ids(self, n):
    n = min(n, self.stream.n - self.pos)
    ids = list(range(self.pos, self.pos + n))
    self.pos += n
    return ids

  def update(self, ids, delta):
    r = self.attempt(self.stream.batch(ids), delta)
    self.done(ids, delta)
    return r

  def attempt(self, d, delta):
    """Only the arm's update: nothing else of the package runs in here."""
    self.ctx.tick()
    self.rec.take()
    return self.arm.update(d, delta)

  def done(self, ids, delta):
    """The update of these units succeeded."""
    self.batches.append(list(ids))
    self.updates += 1
    s = lab.state(self.arm)
    self.ctx.ev("update", len(ids), delta, s["ci"], s["var"], s["units"])

  def reset(self):
    self.arm.reset()
    self.batches = []
    self.updates = 0

  def held(self):
    return sorted(i for b in self.batches for i in b)

  def folds(self, log):
    """(fitting fold, scoring fold or None) seen in one update's calls."""
    fits = [c[1] for c in log if c[0] == "fit"]
    scores = [c[1] for c in log if c[0] == "score"]
    if not fits:
      return None, None
    f0 = max(fits, key=len) if self.spec["arm"] == "boot" else fits[-1]
    s0 = set(f0)
    f1 = None
    for s in scores:
      if not s0 & set(s):
        if f1 is None or len(s) > len(f1):
          f1 = s
    return f0, f1


def gen_deltas(rng, n):
  base = rng.choice([0.01, 0.05, 0.1, 0.3, 0.5])
  return [base if rng.random() < 0.8 else rng.choice([0.001, 0.05, 0.2, 0.5])
          for _ in range(n)]


class ArmCheck(Check):
  real = REAL
  stub = STUB
  n = {"quick": 1600, "thorough": 120000}
  etas = None
  boot = 0.25
  cis = ("CHI2", "CLT", "FINITE")
  rule = ("one run = an arm (kind, interval algorithm, nuisance parameter, "
          "split mode), a unit stream and a history of batches of 0-36 units "
          "with resets and the property's faults, drawn from the run seed; "
          "non-trivial = at least two updates with data of which one reached "
          "scoring")

  def gen(self, rng, i, tier):
    spec = lab.gen_arm_spec(rng, self.etas, self.boot, self.cis)
    sizes = lab.gen_sizes(rng)
    plan = dict(spec=spec, seed=rng.randrange(10**9),
                ops=[["upd", n, dl] for n, dl in
                     zip(sizes, gen_deltas(rng, len(sizes)))])
    if rng.random() < 0.25 and len(sizes) > 2:
      plan["ops"].insert(rng.randrange(1, len(sizes)), ["reset"])
    return plan

  def valid(self, plan):
    return lab.valid_spec(plan["spec"]) and all(
        o[0] == "reset" or (o[0] == "upd" and o[1] >= 0 and 0 < o[2] <= 0.5)
        for o in plan["ops"])

  def total(self, plan):
    return sum(o[1] for o in plan["ops"] if o[0] == "upd")


def fold_violations(rig, log, need_f1=False):
  """C15 on one successful update."""
  spec = rig.spec
  held = rig.held()
  arm = rig.arm
  expect(arm.get_num_units() == len(held), "unit-count",
         lambda: f"{spec['arm']} arm reports {arm.get_num_units()} units after "
         f"batches of {[len(b) for b in rig.batches]}")
  f0, f1 = rig.folds(log)
  if f0 is None:
    return False
  expect(len(set(f0)) == len(f0), "duplicated-unit",
         lambda: f"fitting fold holds a unit twice: {sorted(f0)[:40]}")
  expect(set(f0) <= set(held), "foreign-unit",
         lambda: f"fitting fold holds units of no batch since reset: "
         f"{sorted(set(f0) - set(held))[:20]}")
  if f1 is None:
    n0 = len(f0)
    slack = len([b for b in rig.batches if b]) if spec["stable"] else 1
    expect(abs(2 * n0 - len(held)) <= slack, "unbalanced",
           lambda: f"fitting fold has {n0} of {len(held)} units")
    return False
  expect(len(set(f1)) == len(f1), "duplicated-unit",
         lambda: f"scoring fold holds a unit twice: {sorted(f1)[:40]}")
  expect(sorted(f0 + f1) == held, "units-lost",
         lambda: f"{spec['arm']} arm, "
         f"{'incremental' if spec['stable'] else 're-splitting'}: batches "
         f"{[len(b) for b in rig.batches]} but the folds hold {len(f0)}+"
         f"{len(f1)} units; missing {sorted(set(held) - set(f0) - set(f1))[:20]}"
         f" extra {sorted((set(f0) | set(f1)) - set(held))[:20]}")
  if spec["stable"]:
    s0 = set(f0)
    for b in rig.batches:
      k = len([i for i in b if i in s0])
      expect(abs(2 * k - len(b)) <= 1, "unbalanced",
             lambda: f"a batch of {len(b)} units was split {k}:{len(b) - k}")
  else:
    expect(abs(len(f0) - len(f1)) <= 1, "unbalanced",
           lambda: f"folds of {len(f0)} and {len(f1)} units")
  return True


@register
class C15(ArmCheck):
  id = "C15"

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    if rng.random() < 0.6:
      plan["spec"]["eta"] = "toy"
    plan["extra"] = rng.choice([0, 0, 1, 2])
    plan["reuse"] = rng.choice([0, 0, 0, 1, 2])   # the source's ExpData object
    return plan

  def run(self, ctx, plan):
    spec = plan["spec"]
    n = self.total(plan)
    d, extra = spec["d"], plan["extra"]
    kind = "finite" if spec["eta"] == "front" else "cont"
    stream = lab.Stream(plan["seed"], n, d + extra, kind)
    tr, cols = None, None
    if extra == 1:
      tr, cols = lib.data.get_remove_coordinates_fn(0), list(range(1, d + 1))
    elif extra == 2:
      cols = [d + 1] + list(range(d - 1))
      tr = lib.data.get_coordinate_mask_fn(cols)
    rig = Rig(ctx, spec, stream, tr, cols)
    scored = 0
    held = None
    for o in plan["ops"]:
      if o[0] == "reset":
        rig.reset()
        expect(rig.arm.get_num_units() == 0, "unit-count", "units after reset")
        continue
      ids = rig.next_ids(o[1])
      b = stream.batch(ids)
      if plan["reuse"]:
        if held is None:
          held = b
        held.__init__(b.cov, b.exp, b.rsp)
        b = held
        ctx.fault("batch_object_reused")
      rig.attempt(b, o[2])
      rig.done(ids, o[2])
      if plan["reuse"] == 2:    # the source scribbles over what it delivered
        for x in (b.cov, b.exp, b.rsp):
          x[...] = -77
      full = fold_violations(rig, rig.rec.take())
      scored += bool(full)
      ctx.sig(spec["arm"], spec["stable"], spec["eta"], o[1], full)
    ctx.probe("updates with both folds seen", scored)
    ctx.nontrivial = scored > 0 and len(plan["ops"]) > 1


@register
class C16(ArmCheck):
  id = "C16"

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    if rng.random() < 0.4:
      plan["spec"]["eta"] = "toy"
    if i % 3 == 0:
      k = rng.randrange(len(plan["ops"]))
      plan["fail"] = dict(op=k, at=rng.choice([1, 1, 2, 3]),
                          when=rng.choice(["pre", "post"]),
                          kind=core.fault_kind(rng))
    return plan

  def run(self, ctx, plan):
    spec = plan["spec"]
    stream = lab.stream_for(spec, plan["seed"], self.total(plan))
    rig = Rig(ctx, spec, stream)
    ever_fit, ever_scored = set(), set()
    scored = 0
    for k, o in enumerate(plan["ops"]):
      if o[0] == "reset":
        rig.reset()
        ever_fit, ever_scored = set(), set()
        continue
      ids = rig.next_ids(o[1])
      f = plan.get("fail")
      if f and f["op"] == k:
        rig.rec.calls, rig.rec.failed = 0, False
        rig.rec.fail = dict(at=f["at"], when=f["when"],
                            exc=core.make_fault(f["kind"], "nuisance"))
        try:
          rig.update(ids, o[2])
        except core.INJECTED:
          ctx.fault("nuisance_call_failed")
          got = rig.arm.get_num_units()
          if got == len(rig.held()) + len(ids):
            rig.batches.append(ids)
        rig.rec.fail = None
      else:
        rig.update(ids, o[2])
      log = rig.rec.take()
      self.judge(ctx, rig, spec, log, ever_fit, ever_scored)
      scored += any(c[0] == "score" for c in log)
    ctx.probe("updates that scored", scored)
    ctx.nontrivial = scored > 1

  def judge(self, ctx, rig, spec, log, ever_fit, ever_scored):
    f0, f1 = rig.folds(log)
    if f0 is None:
      return
    s0 = set(f0)
    fitted = None
    eff = getattr(rig, "effective", None)   # units of the fit in force
    for name, ids in log:
      if name == "reset":
        eff = None
      elif name == "fit":
        fitted = set(ids)
        if lab.enough(spec, [rig.stream.exp[i] for i in ids]):
          eff = fitted
        expect(fitted <= s0, "fit-on-both-folds",
               lambda: f"fits on units {sorted(fitted)[:20]} and on "
               f"{sorted(s0)[:20]} in one update")
      elif name in ("score", "transform"):
        expect(fitted is not None, "score-before-fit", "scored before fitting")
        both = fitted & set(ids)
        expect(not both, "fitted-units-scored",
               lambda: f"units {sorted(both)[:20]} were fitted on and scored in "
               "one update")
        if name == "score" and not set(ids) & s0:
          expect(fitted == s0, "partial-fit",
                 lambda: f"the estimates come from a nuisance parameter fitted "
                 f"on {len(fitted)} of the {len(s0)} units of its fold")
          both = (eff or set()) & set(ids)
          expect(not both, "stale-fit-scored",
                 lambda: f"units {sorted(both)[:20]} are scored with a fit that "
                 "used them in an earlier update")
    rig.effective = eff
    if f1 is not None:
      expect(set(rig.held()) - s0 == set(f1), "partial-scoring",
             lambda: f"{len(f1)} units scored, the scoring fold has "
             f"{len(rig.held()) - len(s0)}")
    elif any(c[0] == "score" for c in log):
      raise Violation("fitted-units-scored", "scores were computed only on the "
                      "fitting fold")
    if spec["stable"]:
      ever_fit |= s0
      ever_scored |= set(f1 or ())
      both = ever_fit & ever_scored
      expect(not both, "fold-changed",
             lambda: f"units {sorted(both)[:20]} were used for fitting in one "
             "update and for scoring in another")
    ctx.sig(spec["arm"], spec["stable"], spec["eta"], len(s0), len(f1 or ()))


# --------------------------------------------------------------------------


def ref_width(spec, cov, exp, delta):
  """The documented confidence-sequence width of the nuisance parameter."""
  np = lib.np
  rho, sg = spec["rho"], spec["eta_sub_g"]
  if spec["eta"] == "toy":
    return 0.5, 1.0
  overlap = spec["overlap"]
  if spec["eta"] == "front":
    x = np.c_[exp, cov].astype(float)
  else:
    x = np.asarray(cov, dtype=float)
  n, d = x.shape
  full = delta
  if spec["eta"] == "front":
    delta = delta / 3
  lam = np.linalg.eigvalsh(x.T.dot(x))
  lam = np.clip(lam, 0, None)
  num = sg * np.sum(np.log(sg * lam + rho))
  den = sg * (d * np.log(rho) + 2 * np.log(delta))
  if num <= den:
    return INF, 1.0
  radius = np.sqrt(num - den)
  cond = lam[0] / lam[-1] if lam[-1] > 0 else 0.0
  mu = lam[0]**2 / (lam[0] + rho / sg)
  if mu <= 0:
    return INF, cond
  r = radius / np.sqrt(mu)
  if spec["eta"] != "front":
    return r + r * (1 / overlap - 2), cond
  dl = delta / 3
  if n <= dl**2 / 4 / rho:
    t = INF
  else:
    t = np.sqrt(1 / n * (.25 + rho / n) * np.log((n / 4 + rho) / (dl**2 * rho)))
  return r + t * (1 / overlap - 1) + r * 2 * (1 / overlap - 1), cond


def ref_interval(spec, scores, delta, updates, fold0):
  """(lo, hi, tolerance) by the documented formula."""
  np = lib.np
  import scipy.stats as st
  n = len(scores)
  var = float(np.mean((scores - np.mean(scores))**2))
  if spec["ci"] == "CHI2":
    return (var * (n - 1) / st.chi2.ppf(1 - delta / 2, df=n - 1),
            var * (n - 1) / st.chi2.ppf(delta / 2, df=n - 1), 1e-8)
  if spec["ci"] == "CLT":
    level = delta / updates**2
    vv = float(np.var((scores - np.mean(scores))**2))
    z = st.norm.ppf(1 - level / 2)
    return max(var - z * math.sqrt(vv / n), 0), var + z * math.sqrt(vv / n), 1e-7
  if spec["burn_in"] > n:
    return 0, INF, 0
  sg, tau, m = spec["sub_g"], spec["tau"], spec["burn_in"]
  lam = max(sg, 8 * sg**2)
  w = 5 / 8 * (math.sqrt(2 * sg) + tau)
  w *= math.sqrt(2 * math.log(lam * n / m) / n + .5 + math.log(4 / delta))
  w /= math.sqrt(n)
  eta, cond = ref_width(spec, fold0.cov, fold0.exp, delta / 2)
  if cond < 1e-9:
    return 0, (1e4, INF), None     # no information in some direction
  w += eta**2
  return max(var - w, 0), var + w, 1e-6 + 1e-14 / cond


@register
class C17(ArmCheck):
  id = "C17"
  boot = 0.0
  rule = ("one run = a sample-splitting arm and a history of batches including "
          "degenerate ones, resets and collinear covariates; each update's "
          "estimates and interval are compared with an independent "
          "implementation of the documented formulas; non-trivial = at least "
          "one non-vacuous interval was compared")

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    plan["collinear"] = rng.choice([None, None, None, "dup", "const", "zero",
                                    "sum"])
    plan["scale"] = rng.choice([1.0, 1.0, 0.1, 5.0])
    plan["effect"] = rng.choice([0, 1.0, -3.0])
    if rng.random() < 0.5:
      plan["ops"].append(["upd", rng.randrange(20, 80), 0.05])
    return plan

  def run(self, ctx, plan):
    np = lib.np
    spec = plan["spec"]
    stream = lab.stream_for(spec, plan["seed"], self.total(plan),
                            collinear=plan["collinear"],
                            scale=plan["scale"] if spec["eta"] != "front" else 1.0,
                            effect=plan["effect"])
    rig = Rig(ctx, spec, stream)
    compared = 0
    for o in plan["ops"]:
      if o[0] == "reset":
        rig.reset()
        continue
      ret = rig.update(rig.next_ids(o[1]), o[2])
      log = rig.rec.take()
      s = lab.state(rig.arm)
      lo, hi = s["ci"]
      expect(not isinstance(lo, complex) and not isinstance(hi, complex) and
             np.isrealobj(lo) and np.isrealobj(hi), "complex-interval",
             lambda: f"interval {s['ci']}")
      expect(not math.isnan(lo) and not math.isnan(hi), "nan-interval",
             lambda: f"interval {s['ci']}")
      expect(lab.same_num(ret[0], lo) and lab.same_num(ret[1], hi),
             "returned-interval", lambda: f"returned {ret}, ci is {s['ci']}")
      expect(lo >= 0 and lo <= s["var"] * (1 + 1e-9) + 1e-12 and
             s["var"] <= hi * (1 + 1e-9) + 1e-12, "disordered-interval",
             lambda: f"interval {s['ci']} around estimate {s['var']}")
      scores = [c for c in log if c[0] == "score"]
      if not scores:
        continue
      f0, f1 = rig.rec.last_fit, rig.rec.last_score
      sc = np.asarray(rig.rec.inner.calculate_score(f1), dtype=float)
      expect(lab.same_num(s["ate"], sc.mean(), 1e-7, 1e-9), "effect-estimate",
             lambda: f"effect {s['ate']}, mean score {sc.mean()}")
      expect(lab.same_num(s["var"], sc.var(), 1e-7, 1e-9), "variance-estimate",
             lambda: f"variance {s['var']}, population variance of the scores "
             f"{sc.var()}")
      wlo, whi, tol = ref_interval(spec, sc, o[2], rig.updates, f0)
      if tol is None:
        expect(hi >= whi[0], "informative-interval-from-collinear-data",
               lambda: f"interval {s['ci']} although some direction of the "
               "covariates carries no information")
        ctx.probe("collinear finite-sample interval")
      else:
        a = 1e-9 * (1 + abs(s["var"]))
        expect(lab.same_num(lo, wlo, tol, a) and lab.same_num(hi, whi, tol, a),
               "interval",
               lambda: f"{spec['ci']} interval {s['ci']} at level {o[2]}, update "
               f"{rig.updates}, {len(sc)} scores; documented ({wlo}, {whi})")
      compared += 1
      ctx.probe("compared " + spec["ci"])
      if hi < INF:
        ctx.probe("finite interval " + spec["ci"])
      ctx.sig(spec["ci"], spec["eta"], len(sc), rig.updates)
    ctx.nontrivial = compared > 0


def sufficient_now(rig, f0):
  return lab.enough(rig.spec, [rig.stream.exp[i] for i in f0])


def is_vacuous(s):
  return (s["ci"] == (0, INF) and s["var"] is not None and s["var"] == INF and
          (s["ate"] is None or math.isnan(s["ate"])))


@register
class C18(ArmCheck):
  id = "C18"
  rule = ("one run = an arm fed degenerate batches (all treated, all control, "
          "empty, single units) mixed with ordinary ones; non-trivial = the "
          "arm went from vacuous to a real estimate")

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    ops = []
    for _ in range(rng.randrange(1, 7)):
      ops.append(["upd", rng.choice([0, 1, 1, 2, 3, 5, 9, 20]),
                  rng.choice([0.05, 0.3]),
                  rng.choice(["treated", "control", "mixed", "treated",
                              "control"])])
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
      ops.append(["upd", rng.choice([2, 5, 20, 40]), 0.05, "mixed"])
    if rng.random() < 0.3:
      ops.insert(rng.randrange(len(ops)), ["reset"])
    if rng.random() < 0.3:
      rng.shuffle(ops)
    plan["ops"] = ops
    return plan

  def valid(self, plan):
    return super().valid(plan) and all(
        o[0] == "reset" or o[3] in ("treated", "control", "mixed")
        for o in plan["ops"])

  def run(self, ctx, plan):
    np = lib.np
    spec = plan["spec"]
    stream = lab.stream_for(spec, plan["seed"], self.total(plan))
    rig = Rig(ctx, spec, stream)
    ever = vac = False
    for o in plan["ops"]:
      if o[0] == "reset":
        rig.reset()
        ever = False
        continue
      ids = rig.next_ids(o[1])
      if o[3] != "mixed":
        stream.set_exposure(ids, int(o[3] == "treated"))
        ctx.fault("degenerate_batch" if ids else "empty_batch")
      elif not ids:
        ctx.fault("empty_batch")
      ret = rig.update(ids, o[2])
      log = rig.rec.take()
      s = lab.state(rig.arm)
      fits = [c[1] for c in log if c[0] == "fit"]
      if not fits:
        expect(is_vacuous(s), "not-vacuous", lambda: f"no fit, yet {s}")
        continue
      f0 = max(fits, key=len)
      f1 = sorted(set(rig.held()) - set(f0))
      now = sufficient_now(rig, f0)
      ever = now or (ever and spec["stable"])
      t = sum(int(stream.exp[i] == 1) for i in f0)
      what = f"{t} treated and {len(f0) - t} control units, {len(f1)} to score"
      if not ever or len(f1) < 2:
        vac = True
        expect(is_vacuous(s), "not-vacuous",
               lambda: f"{spec['arm']}/{spec['eta']}: fitting fold has {what} "
               f"(minimum {spec['min_units']}), yet the arm reports {s}")
        expect(tuple(ret) == (0, INF), "not-vacuous", lambda: f"returned {ret}")
        ctx.sig("vacuous", spec["arm"], spec["eta"], t, len(f0))
      elif now:
        fresh = lab.eta_for(spec)
        fresh.fit(stream.batch(f0))
        sc = np.asarray(fresh.calculate_score(stream.batch(f1)), dtype=float)
        tol = 1e-2 if spec["eta"] in ("aipw", "kernel") else 1e-6
        sd = float(np.std(sc)) + abs(float(np.mean(sc)))
        expect(lab.same_num(s["ate"], sc.mean(), tol, tol * sd + 1e-9) and
               lab.same_num(s["var"], sc.var(), 5 * tol, 5 * tol * sd**2 + 1e-9),
               "not-recovered",
               lambda: f"{spec['arm']}/{spec['eta']}: fitting fold has {what}; "
               f"the arm reports effect {s['ate']} variance {s['var']}, the same "
               f"units in one go give {sc.mean()} and {sc.var()}")
        if spec["arm"] == "split":
          expect(not math.isnan(s["ci"][0]) and not math.isnan(s["ci"][1]),
                 "nan-interval", lambda: f"{s}")
        ctx.sig("real", spec["arm"], spec["eta"], t, len(f0))
        if vac:
          ctx.nontrivial = True
          ctx.probe("recovered:" + spec["eta"])


# --------------------------------------------------------------------------


@register
class C19(ArmCheck):
  id = "C19"
  rule = ("one run = an arm whose updates fail at a transformer, fit, scoring "
          "or width call, an array allocation, an interrupt or allocation "
          "failure at an arbitrary executed line of the package, or an invalid "
          "level, followed by further updates; non-trivial = a fault fired "
          "inside an update")
  n = {"quick": 2500, "thorough": 200000}

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    if rng.random() < 0.6:
      plan["spec"]["eta"] = "toy"
    ops = []
    for o in plan["ops"]:
      if o[0] == "upd" and rng.random() < 0.6:
        kind = rng.choice(["transformer", "eta", "eta", "alloc", "alloc",
                           "line", "line", "linealloc", "level"])
        at = {"transformer": 1, "eta": rng.randrange(1, 8),
              "alloc": rng.randrange(1, 10), "line": rng.randrange(1, 70),
              "linealloc": rng.randrange(1, 70),
              "level": rng.choice([0, 1, -1, 2])}[kind]
        ops.append(["fail", max(o[1], rng.choice([1, 2, 3])), o[2], kind, at,
                    rng.choice(["pre", "post"]), core.fault_kind(rng)])
        if rng.random() < 0.5:
          continue
      ops.append(o)
    ops.append(["upd", rng.randrange(0, 9), 0.05])
    ops.append(["upd", 40, 0.05])
    plan["ops"] = ops
    return plan

  def valid(self, plan):
    return lab.valid_spec(plan["spec"]) and all(
        o[0] == "reset" or (o[0] in ("upd", "fail") and o[1] >= 0 and
                            0 < o[2] <= 0.5) for o in plan["ops"])

  def total(self, plan):
    return sum(o[1] for o in plan["ops"] if o[0] in ("upd", "fail"))

  def run(self, ctx, plan):
    spec = plan["spec"]
    stream = lab.stream_for(spec, plan["seed"], self.total(plan))
    trip = dict(exc=None)

    def transformer(d):
      if trip["exc"] is not None:
        e, trip["exc"] = trip["exc"], None
        raise e
      return d

    rig = Rig(ctx, spec, stream, transformer)
    fired = 0
    for o in plan["ops"]:
      if o[0] == "reset":
        rig.reset()
        continue
      ids = rig.next_ids(o[1])
      if o[0] == "upd":
        rig.update(ids, o[2])
        fold_violations(rig, rig.rec.take())
        continue
      _, _, delta, kind, at, when, ek = o
      before = lab.state(rig.arm)
      held = len(rig.held())
      expect(before["units"] == held, "unit-count",
             lambda: f"{before['units']} units reported, {held} held")
      exc = None
      if kind == "level":
        rig.rec.take()
        try:
          rig.update(ids, at)
        except ValueError as e:
          exc = e
        expect(exc is not None, "level-accepted", lambda: f"level {at} accepted")
        expect(not rig.rec.take(), "level-late", "the nuisance parameter was "
               "called at an invalid level")
        after = lab.state(rig.arm)
        expect(lab.same_state(after, before), "level-late",
               lambda: f"an invalid level changed {before} to {after}")
        ctx.fault("invalid_level")
        ctx.nontrivial = True
        continue
      inj = None
      batch = stream.batch(ids)
      try:
        if kind == "transformer":
          inj = trip["exc"] = core.make_fault(ek, "transformer")
          rig.attempt(batch, delta)
        elif kind == "eta":
          inj = core.make_fault(ek, "nuisance")
          rig.rec.calls, rig.rec.failed = 0, False
          rig.rec.fail = dict(at=at, when=when, exc=inj)
          rig.attempt(batch, delta)
        elif kind == "alloc":
          with core.AllocFaults(ctx, at) as af:
            inj = af.exc
            rig.attempt(batch, delta)
        else:
          exc_ = core.InjectedInterrupt("line") if kind == "line" else (
              core.InjectedAllocFailure("line"))
          with core.CrashAtLine(ctx, at, exc_) as cr:
            inj = cr.exc
            rig.attempt(batch, delta)
      except core.INJECTED as e:
        exc = e
        expect(e is inj, "exception-replaced", lambda: f"{e!r}")
      finally:
        trip["exc"] = None
        rig.rec.fail = None
      log = rig.rec.take()
      if exc is None:   # the fault point was not reached
        rig.done(ids, delta)
        fold_violations(rig, log)
        continue
      fired += 1
      if kind != "alloc":
        ctx.fault({"transformer": "transformer_failed",
                   "eta": "nuisance_call_failed", "line": "interrupt_at_line",
                   "linealloc": "alloc_failure_at_line"}[kind])
      got = rig.arm.get_num_units()
      expect(got in (held, held + len(ids)), "partial-batch",
             lambda: f"after a failed update ({kind} {at}) the arm reports {got} "
             f"units; it held {held} and the batch had {len(ids)}")
      if ids and got == held + len(ids):
        rig.batches.append(ids)
        ctx.probe("failed after the batch was kept")
      elif ids:
        ctx.probe("failed before the batch was kept")
      ctx.sig(kind, spec["arm"], spec["stable"], got == held,
              len(log), held == 0)
    if fired:
      ctx.nontrivial = True


# --------------------------------------------------------------------------


@register
class C12(ArmCheck):
  id = "C12"
  rule = ("one run = an arm (or a bandit over arms) with a history of updates, "
          "some aborted by an interrupt at an arbitrary executed line, resets "
          "possibly interrupted themselves; after a final reset it is compared "
          "with a newly constructed one, immediately and over later updates "
          "with the same random numbers; non-trivial = the arm had a fit "
          "before the reset")
  n = {"quick": 1500, "thorough": 100000}

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    plan["after"] = [[n, 0.05] for n in
                     (rng.choice([10, 20, 40]), rng.randrange(0, 30), 20)]
    plan["ops"].append(["upd", 30, 0.05])
    for o in plan["ops"]:
      if o[0] == "upd" and rng.random() < 0.25:
        o.append(rng.randrange(1, 120))     # interrupt at this line
    plan["reset_line"] = [rng.randrange(1, 15)] if rng.random() < 0.4 else []
    plan["via"] = rng.choice(["arm", "arm", "bandit"])
    return plan

  def total(self, plan):
    return super().total(plan) + sum(a[0] for a in plan["after"])

  def run(self, ctx, plan):
    np = lib.np
    spec = plan["spec"]
    stream = lab.stream_for(spec, plan["seed"], self.total(plan))
    rig = Rig(ctx, spec, stream)
    bandit = None
    if plan["via"] == "bandit":
      other = lab.make_arm(spec, lab.eta_for(spec))
      bandit = lib.bandits.UniformAlgorithm([other, rig.arm], None,
                                            sample_limit=10)
    had_fit = False
    for o in plan["ops"]:
      if o[0] == "reset":
        rig.reset()
        continue
      ids = rig.next_ids(o[1])
      if len(o) > 3:
        batch = stream.batch(ids)
        with core.CrashAtLine(ctx, o[3]) as cr:
          try:
            rig.attempt(batch, o[2])
          except core.InjectedInterrupt:
            ctx.fault("interrupt_at_line")
            ctx.sig("int", cr.where)
      else:
        rig.update(ids, o[2])
      had_fit = had_fit or bool(rig.rec.has_enough_samples())
    do = bandit.reset if bandit else rig.arm.reset
    for n in plan["reset_line"]:
      with core.CrashAtLine(ctx, n) as cr:
        try:
          do()
        except core.InjectedInterrupt:
          ctx.fault("interrupt_in_reset")
          ctx.sig("reset", cr.where)
    do()
    fresh = Rig(ctx, spec, stream)
    expect(not rig.rec.has_enough_samples(), "fit-survives-reset",
           lambda: f"{spec['eta']} still has a fit after reset")
    a, b = lab.state(rig.arm), lab.state(fresh.arm)
    expect(lab.same_state(a, b), "state-survives-reset",
           lambda: f"{spec['arm']}/{spec['eta']}: after reset {a}, just "
           f"constructed {b}")
    rig.rec.take()
    for k, (n, delta) in enumerate(plan["after"]):
      ids = rig.next_ids(n)
      np.random.seed((plan["np_seed"] + k) % 2**32)
      rig.update(ids, delta)
      np.random.seed((plan["np_seed"] + k) % 2**32)
      fresh.update(ids, delta)
      a, b = lab.state(rig.arm), lab.state(fresh.arm)
      expect(lab.same_state(a, b, 1e-8, 1e-10), "differs-after-reset",
             lambda: f"{spec['arm']}/{spec['eta']}: update {k} after reset gives "
             f"{a}, of a new arm {b}")
      la, lb = rig.rec.take(), fresh.rec.take()
      expect([c[0] for c in la] == [c[0] for c in lb] and
             [c[1] and sorted(c[1]) for c in la] ==
             [c[1] and sorted(c[1]) for c in lb], "differs-after-reset",
             lambda: f"{spec['arm']}/{spec['eta']}: update {k} after reset uses "
             "other units than a new arm")
    ctx.sig(spec["arm"], spec["eta"], spec["stable"], len(plan["ops"]))
    ctx.nontrivial = had_fit


# --------------------------------------------------------------------------


@register
class C28(Check):
  id = "C28"
  real = ["nuisance parameters, TabularCPD, scikit-learn"]
  stub = ["unit streams"]
  n = {"quick": 1500, "thorough": 100000}
  rule = ("one run = a nuisance parameter fitted on a sequence of datasets with "
          "different supports, scales and sizes (some insufficient, some fits "
          "aborted by an interrupt or allocation failure at an arbitrary "
          "executed line, some resets), then on a sufficient one, compared "
          "with a freshly constructed one; non-trivial = an earlier fit "
          "succeeded or was aborted")

  def gen(self, rng, i, tier):
    eta = rng.choice(lab.ETAS + ("front", "front"))
    d = rng.choice([1, 2]) if eta == "front" else rng.choice([1, 2, 3])
    ops = []
    for _ in range(rng.choice([1, 1, 2, 3])):
      ops.append(dict(seed=rng.randrange(10**6),
                      n=rng.choice([0, 1, 3, 8, 20, 40, 60]),
                      shift=rng.choice([0, 0, 1, 2, 3]),
                      treat=rng.choice(["mixed", "mixed", "mixed", "all", "none"]),
                      line=rng.choice([None, None, rng.randrange(1, 60)]),
                      like=rng.choice([None, None, None, None, "exp", "cov",
                                       "almost"]),
                      alloc=rng.random() < 0.3,
                      reset=rng.random() < 0.15))
    return dict(eta=eta, d=d, min_units=rng.choice([2, 3, 5]), ops=ops,
                opts=lab.gen_opts(rng, eta),
                seed=rng.randrange(10**6), n=rng.choice([30, 40, 80]),
                overlap=rng.choice([0.05, 0.05, 0.01]),
                shift=rng.choice([0, 0, 1, 2]), wide=rng.choice([0, 0, 1, 3]))

  def valid(self, p):
    return p["eta"] in lab.ETAS and p["min_units"] >= 2 and p["n"] >= 30 and (
        p["d"] in (1, 2, 3)) and all(o["n"] >= 0 for o in p["ops"])

  def data(self, p, seed, n, shift):
    s = lab.Stream(seed, n, p["d"],
                   "finite" if p["eta"] == "front" else "cont")
    s.cov = s.cov + (shift if p["eta"] == "front" else 0.5 * shift)
    if p["eta"] == "front" and seed - p["seed"] in (0, 1):   # rare values
      for k in range(p["wide"]):
        s.cov[k + 1::12, 0] = shift + 2.0 + k
    return s

  def run(self, ctx, p):
    np = lib.np
    eta = lab.make_eta(p["eta"], p["d"], p["min_units"], p["overlap"],
                         p["opts"])
    prior = False
    for o in p["ops"]:
      if o["like"]:   # as many units, and some of them or of their values
        s = self.data(p, o["seed"], p["n"], o["shift"])
        t = self.data(p, p["seed"], p["n"], p["shift"])
        if o["like"] == "almost":   # all but some units in the middle
          for a, b in ((s.cov, t.cov), (s.exp, t.exp), (s.rsp, t.rsp)):
            a[:5], a[-5:] = b[:5], b[-5:]
        else:
          s.exp = t.exp.copy()
        if o["like"] == "cov":
          s.cov = t.cov.copy()
        o = dict(o, n=p["n"], treat="mixed")
        ctx.probe("refit to data that agree in part: " + o["like"])
      else:
        s = self.data(p, o["seed"], o["n"], o["shift"])
      if o["treat"] != "mixed":
        s.set_exposure(range(o["n"]), int(o["treat"] == "all"))
      d = s.batch(range(o["n"]))
      ctx.tick()
      ctx.ev("fit", o["n"], o["treat"])
      probe = None
      suff = lab.sufficient(p["eta"], p["min_units"], list(s.exp))
      if prior and not suff:
        probe = self.data(p, 999, 5, o["shift"]).batch(range(5))
        old = np.array(eta.calculate_score(probe), dtype=float)
      if o["line"]:
        exc = (core.InjectedAllocFailure if o["alloc"] else
               core.InjectedInterrupt)("line")
        with core.CrashAtLine(ctx, o["line"], exc) as cr:
          try:
            eta.fit(d)
          except core.INJECTED:
            ctx.fault("alloc_failure_at_line" if o["alloc"] else
                      "interrupt_at_line")
            ctx.sig("abort", p["eta"], cr.where)
            ctx.nontrivial = True
            probe = None
            prior = False   # between two fits: only the next full fit counts
      else:
        eta.fit(d)
      if suff:
        prior = prior or not o["line"]
        ctx.nontrivial = True
      elif probe is not None:
        new = np.array(eta.calculate_score(probe), dtype=float)
        expect(np.array_equal(old, new, equal_nan=True), "insufficient-refit",
               lambda: f"{p['eta']}: a fit on {o['n']} units ({o['treat']}) "
               f"replaced an existing fit: scores {old} became {new}")
        ctx.fault("insufficient_data")
        ctx.probe("insufficient data after a fit")
      if o["reset"]:
        eta.reset()
        prior = False
        expect(not eta.has_enough_samples(), "fit-survives-reset",
               lambda: f"{p['eta']} has a fit after reset")
      ctx.sig(p["eta"], o["n"], o["treat"], o["shift"])
    s = self.data(p, p["seed"], p["n"], p["shift"])
    if not lab.sufficient(p["eta"], p["min_units"], list(s.exp)):
      return
    d = s.batch(range(p["n"]))
    eta.fit(d)
    expect(eta.has_enough_samples(), "no-fit", "no fit after sufficient data")
    fresh = lab.make_eta(p["eta"], p["d"], p["min_units"], p["overlap"],
                         p["opts"])
    fresh.fit(s.batch(range(p["n"])))
    test = self.data(p, p["seed"] + 1, 25, p["shift"])
    for name, q in (("the same data", d), ("other data",
                                           test.batch(range(25)))):
      a = np.asarray(eta.calculate_score(q), dtype=float)
      b = np.asarray(fresh.calculate_score(q), dtype=float)
      warm = p["eta"] in ("aipw", "kernel")   # warm-started iterative solver
      tol = (2e-2 if warm else 1e-8) * (np.std(b) + np.abs(b) + 1e-6)
      expect(a.shape == b.shape and bool(np.all(
          (np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)))), "stale-fit",
             lambda: f"{p['eta']}: scores on {name} differ by up to "
             f"{np.nanmax(np.abs(a - b)) if a.shape == b.shape else 'shape'} "
             f"from a new parameter fitted on the same data, e.g. {a[:4]} and "
             f"{b[:4]}")
    if p["eta"] in lab.WIDTHS:
      wa = eta.calculate_cs_width(0.05, sub_g=1, rho=.1)
      wb = fresh.calculate_cs_width(0.05, sub_g=1, rho=.1)
      expect(lab.same_num(wa, wb, 1e-6), "stale-width",
             lambda: f"{p['eta']}: width {wa}, of a new parameter {wb}")


# --------------------------------------------------------------------------


def same_bytes(d, e):
  """Equal down to the last bit, negative zeros and not-a-numbers included."""
  return all(
      (a is None) == (b is None) and (a is None or (
          a.shape == b.shape and a.dtype == b.dtype and
          a.tobytes() == b.tobytes()))
      for a, b in ((d.cov, e.cov), (d.exp, e.exp), (d.rsp, e.rsp)))


def overwrite(d, rng):
  """A caller reusing its buffers."""
  np = lib.np
  for a in (d.cov, d.exp, d.rsp):
    if a is not None and getattr(a, "size", 0):
      a[...] = rng.choice([0, 1, 7])
  del np


@register
class C29(ArmCheck):
  id = "C29"
  rule = ("one run = arms fed from a source that reuses its buffers "
          "(overwritten at later times), from shared batches or from a shared "
          "dataset, compared with private copies; inputs are compared with "
          "copies after every call; non-trivial = a buffer was overwritten "
          "after ingestion and a later update used the data, or a dataset was "
          "shared by two runs")
  n = {"quick": 1500, "thorough": 100000}

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    plan["mode"] = rng.choice(["overwrite", "overwrite", "shared", "dataset"])
    plan["when"] = [rng.choice([0, 0, 1, 2]) for _ in plan["ops"]]
    plan["trans"] = rng.choice(["id", "id", "mask", "remove"])
    plan["ops"].append(["upd", 20, 0.05])
    plan["alg"] = rng.choice(["uniform", "lucb", "se"])
    plan["upr"] = rng.choice([3, 8, 15])
    plan["odd"] = rng.random() < 0.4
    return plan

  def valid(self, plan):
    return super().valid(plan) and plan["upr"] >= 1 and plan["mode"] in (
        "overwrite", "shared", "dataset")

  def stream(self, ctx, plan, n, dim, kind, cols):
    """Some values are peculiar: negative zeros, and not-a-number or infinite
    ones in the columns that the arm does not look at."""
    s = lab.Stream(plan["seed"], n, dim, kind)
    if plan["odd"]:
      r = random.Random(plan["seed"] + 5)
      for i in range(n):
        for j in range(dim):
          if j not in cols:
            s.cov[i, j] = r.choice([lib.np.nan, INF, -INF, 0.0, -0.0, 1.0])
          elif r.random() < .1 and (kind != "finite" or not s.cov[i, j]):
            s.cov[i, j] = -0.0
      ctx.probe("peculiar values")
    return s

  def trans(self, plan, d):
    if plan["trans"] == "id":
      return lib.data.get_identity_fn(), list(range(d)), d
    if plan["trans"] == "mask":
      return (lib.data.get_coordinate_mask_fn(list(range(d))),
              list(range(d)), d + 1)
    return lib.data.get_remove_coordinates_fn(0), list(range(1, d + 1)), d + 1

  def run(self, ctx, plan):
    np = lib.np
    spec = plan["spec"]
    tr, cols, dim = self.trans(plan, spec["d"])
    kind = "finite" if spec["eta"] == "front" else "cont"
    if plan["mode"] == "dataset":
      return self.run_dataset(ctx, plan, tr, cols, dim, kind)
    stream = self.stream(ctx, plan, self.total(plan), dim, kind, cols)
    rig = Rig(ctx, spec, stream, tr, cols)
    ref = Rig(ctx, spec, stream, self.trans(plan, spec["d"])[0], cols)
    pending = []
    rng = random.Random(plan["seed"])
    hits = 0
    for k, o in enumerate(plan["ops"]):
      for p in [p for p in pending if p[0] <= k]:
        overwrite(p[1], rng)
        ctx.fault("buffer_overwritten")
        hits += 1
        pending.remove(p)
      if o[0] == "reset":
        rig.reset()
        ref.reset()
        continue
      ids = rig.next_ids(o[1])
      d = stream.batch(ids)
      copy_ = stream.batch(ids)
      np.random.seed((plan["np_seed"] + k) % 2**32)
      ref.update(ids, o[2])
      ctx.tick()
      np.random.seed((plan["np_seed"] + k) % 2**32)
      rig.rec.take()
      rig.arm.update(d, o[2])
      rig.batches.append(ids)
      if plan["mode"] == "shared":   # a second arm gets the very same batch
        other = lab.make_arm(spec, lab.eta_for(spec),
                             self.trans(plan, spec["d"])[0])
        other.update(d, o[2])
        other.update(d, o[2])
      expect(same_bytes(d, copy_) and len(d) == len(ids),
             "input-modified", "an update modified the batch it was given")
      expect(fold_violations(rig, rig.rec.take()) or True, "", "")
      a, b = lab.state(rig.arm), lab.state(ref.arm)
      expect(lab.same_state(a, b, 1e-9), "buffer-leak",
             lambda: f"{spec['arm']}/{spec['eta']}/{plan['trans']}: with reused "
             f"buffers the arm reports {a}, with private ones {b}")
      w = plan["when"][k] if k < len(plan["when"]) else 0
      pending.append((k + 1 + w, d))
      ctx.sig(spec["arm"], spec["stable"], o[1], w)
    ctx.nontrivial = hits > 0

  def run_dataset(self, ctx, plan, tr, cols, dim, kind):
    spec = plan["spec"]
    np = lib.np
    n = max(self.total(plan), 4)
    stream = self.stream(ctx, plan, n, dim, kind, cols)
    ds, ds_copy = stream.batch(range(n)), stream.batch(range(n))
    cls = {"uniform": lib.bandits.UniformAlgorithm,
           "lucb": lib.bandits.LUCBAlgorithm,
           "se": lib.bandits.SuccessiveEliminationAlgorithm}[plan["alg"]]

    def go(dataset):
      arms = [lab.make_arm(dict(spec, cost=c), lab.eta_for(spec), tr)
              for c in (1, 1)]
      np.random.seed(plan["np_seed"] % 2**32)
      res = cls(arms, None, error_prob=.1, sample_limit=6 * plan["upr"],
                units_per_round=plan["upr"]).run(dataset)
      ctx.tick()
      return ([list(map(float, res.var_est_by_arm[a])) for a in arms],
              [list(map(float, res.lcb_by_arm[a])) for a in arms],
              list(res.cum_samples)), arms

    a, arms = go(ds)
    expect(same_bytes(ds, ds_copy) and len(ds) == n,
           "input-modified", "a run modified the dataset it was given")
    before = [lab.state(x) for x in arms]
    b, _ = go(ds)
    expect(repr(a) == repr(b), "dataset-leak",
           lambda: f"a second run on the same dataset gives {str(b)[:200]}, the "
           f"first gave {str(a)[:200]}")
    overwrite(ds, random.Random(1))
    ctx.fault("buffer_overwritten")
    extra = lab.Stream(plan["seed"] + 1, 20, dim, kind)
    fresh_arms = go(ds_copy)[1]
    for k, (x, y, s) in enumerate(zip(arms, fresh_arms, before)):
      expect(lab.same_state(lab.state(x), s), "buffer-leak", "an arm's reports "
             "changed when the dataset's buffers were overwritten")
      np.random.seed(k)
      x.update(extra.batch(range(20)), .05)
      np.random.seed(k)
      y.update(extra.batch(range(20)), .05)
      expect(lab.same_state(lab.state(x), lab.state(y), 1e-9), "buffer-leak",
             lambda: f"arm {k} reports {lab.state(x)} after the dataset's buffers "
             f"were overwritten, {lab.state(y)} otherwise")
    ctx.sig("dataset", plan["alg"], spec["arm"], spec["eta"], n)
    ctx.nontrivial = True


# --------------------------------------------------------------------------


def laid_out(d, layout):
  """The same values in another memory layout."""
  np = lib.np
  if layout == "F":
    d.cov = np.asfortranarray(d.cov)
  elif layout == "strided":
    d.cov = np.repeat(np.repeat(d.cov, 2, axis=0), 3, axis=1)[::2, ::3]
    d.exp, d.rsp = np.repeat(d.exp, 2)[::2], np.repeat(d.rsp, 3)[::3]
  elif layout == "reversed":
    d.cov, d.exp, d.rsp = (np.array(a[::-1])[::-1]
                           for a in (d.cov, d.exp, d.rsp))
  return d


@register
class C30(ArmCheck):
  id = "C30"
  rule = ("one run = the same stream of exactly representable values delivered "
          "twice, once with 64-bit types and once with a type per batch drawn "
          "at random (integer widths, booleans for exposures, float32/64); "
          "non-trivial = a non-default type was used and an update scored")
  etas = lab.ETAS + ("front",)

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    plan["ops"].append(["upd", rng.choice([20, 40, 40, rng.randrange(250, 700)]),
                        0.05])
    plan["ops"].append(["upd", rng.choice([0, 3, 20]), 0.05])
    exps = ["int64", "float64", "int32", "int8", "uint8", "bool", "float32",
            ">i4", ">f8"]
    covs = ["float64", "float64", "int64", "int32", "int16", "int8", ">f8"]
    rsps = ["float64", "float64", "float32", ">f8"]
    plan["whole"] = rng.random() < 0.4     # integer responses
    if plan["whole"]:
      rsps = ["float64", "int64", "int32", "int16", "int8", "int8", ">i2"]
    if plan["spec"]["eta"] not in ("aipw", "kernel", "generic"):
      covs.append("float32")   # the logistic solver stops earlier in float32
    one = rng.random() < 0.4
    e, c, y = rng.choice(exps), rng.choice(covs), rng.choice(rsps)
    plan["types"] = [[e if one else rng.choice(exps),
                      c if one else rng.choice(covs),
                      y if one else rng.choice(rsps)]
                     for _ in plan["ops"]]
    if plan["whole"] and rng.random() < .5:   # the narrowest types throughout
      plan["types"] = [[rng.choice(["int8", "uint8", "bool"]), "int8",
                        rng.choice(["int8", "int8", "int16"])]] * len(plan["ops"])
    plan["layout"] = [rng.choice(["C", "C", "F", "strided", "reversed"])
                      for _ in plan["ops"]]
    return plan

  def valid(self, plan):
    return super().valid(plan) and len(plan["types"]) >= len(plan["ops"]) and (
        len(plan["layout"]) >= len(plan["ops"])) and (
        plan["spec"]["eta"] != "toy")

  def run(self, ctx, plan):
    np = lib.np
    spec = plan["spec"]
    n = self.total(plan)
    stream = lab.stream_for(spec, plan["seed"], n)
    if spec["eta"] != "front":   # small integers
      stream.cov = np.round(stream.cov * 2)
    # multiples of 2^-8, exactly representable in single precision, distinct
    r = np.round(stream.rsp * 16) / 16
    stream.rsp = r + 0.0
    if plan["whole"]:
      stream.rsp = np.clip(np.round(stream.rsp * 20), -120, 120) + 0.0
    rng_states = plan["np_seed"]
    mk = lambda: lab.make_arm(spec, lab.eta_for(spec))
    a, b = mk(), mk()
    scored = changed = False
    pos = 0
    for k, o in enumerate(plan["ops"]):
      if o[0] == "reset":
        a.reset()
        b.reset()
        continue
      m = min(o[1], n - pos)
      ids = range(pos, pos + m)
      pos += m
      et, ct, rt = plan["types"][k]
      ctx.tick()
      np.random.seed((rng_states + k) % 2**32)
      a.update(stream.batch(ids), o[2])
      np.random.seed((rng_states + k) % 2**32)
      b.update(laid_out(stream.batch(ids, et, ct, rt), plan["layout"][k]), o[2])
      sa, sb = lab.state(a), lab.state(b)
      ctx.ev(k, m, et, ct, rt, sa["var"])
      ctx.sig(spec["arm"], spec["eta"], et, ct, rt)
      if (et, ct, rt) != ("int64", "float64", "float64") and m:
        changed = True
        ctx.fault("type_change")
      if sa["var"] is not None and sa["var"] < INF:
        scored = True
      expect(lab.same_state(sa, sb, 1e-4, 1e-6), "type-dependent",
             lambda: f"{spec['arm']}/{spec['eta']}: batch {k} as exposure {et}, "
             f"covariates {ct}, responses {rt} gives {sb}, with 64-bit values "
             f"{sa}")
    ctx.nontrivial = scored and changed

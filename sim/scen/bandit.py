"""Scenarios over scripted arms: C01-C11."""
import copy
import math

from sim import core, model
from sim.core import expect, lib
from sim.registry import Check, register
from sim.scen import realrace
from sim.world import ALGS, INF, World, ids_of

REAL = ["UniformAlgorithm, LUCBAlgorithm, SuccessiveEliminationAlgorithm",
        "BanditData", "ExpData slicing"]
STUB = ["arms (scripted interval histories)", "data source (tagged units)"]


def gen_script(rng, style, n):
  """n reports [l, u, v] in one style."""
  out = []
  step = rng.choice([0.25, 0.5, 1.0])
  v = rng.choice([0, 1, 2, 3, 4]) * step
  w = rng.choice([0, 1, 2, 3]) * step
  vac = rng.randrange(0, 4) if style in ("vacuous", "mixed") else 0
  for k in range(n):
    if k < vac:
      out.append([0.0, INF, INF])
      continue
    if style == "const":
      pass
    elif style == "lattice":
      v = rng.choice([0, 1, 2, 3]) * step
      w = rng.choice([0, 0, 1, 2]) * step
    elif style == "drift":
      v = max(0.0, v + rng.choice([-1, 0, 1]) * step)
      w = w * rng.choice([1, 1, 0.5])
    elif style in ("mixed", "vacuous"):
      v = max(0.0, v + rng.choice([-1, 0, 0, 1]) * step)
      w = rng.choice([w, w / 2, w / 2, 4 * step])
    elif style == "shrink":
      w = w / 2
    elif style == "real":
      v = rng.uniform(0, 4)
      w = rng.uniform(0, 2)
    elif style == "tiny":
      v = 1.0 + rng.choice([0, 1, 2]) * 1e-9
      w = rng.choice([0.0, 1e-9])
    l, u = max(v - w, 0.0), v + w
    if rng.random() < 0.08:
      u = INF
    if rng.random() < 0.07:   # estimate outside its interval
      l, u = u if u < INF else l, (u if u < INF else l) + w
    if rng.random() < 0.03:
      out.append([l, INF, INF])
    else:
      out.append([l, u, v])
  return out


def gen_arms(rng, K, converge=False):
  mode = rng.choice(["const", "lattice", "drift", "mixed", "vacuous", "shrink",
                     "real", "tiny", "any", "any"])
  cmode = rng.choice(["one", "one", "pow", "any"])
  arms = []
  same = rng.random() < 0.2
  for i in range(K):
    style = mode if mode != "any" else rng.choice(
        ["const", "lattice", "drift", "mixed", "vacuous", "shrink", "real"])
    cost = {"one": 1, "pow": rng.choice([0.25, 0.5, 1, 2, 4]),
            "any": round(rng.uniform(0.1, 5), 2)}[cmode]
    n = rng.randrange(0, 14)
    script = gen_script(rng, style, n)
    if same and i and rng.random() < 0.5:
      script, cost = copy.deepcopy(arms[0]["script"]), arms[0]["cost"]
    tail = [rng.choice([0, 1, 2, 3]) * 0.5, rng.choice([0.0, 0.5, 2.0])]
    if rng.random() < 0.5:
      tail = [round(rng.uniform(0, 4), 3), round(rng.uniform(0, 2), 3)]
    arms.append(dict(cost=cost, script=script, tail=tail))
  if converge:
    vals = rng.sample(range(1, 3 * K + 1), K)
    for a, x in zip(arms, vals):
      a["tail"] = [x / a["cost"], rng.choice([0.0, 0.5, 2.0]) / a["cost"]]
      for r in a["script"]:   # finite intervals that contain the limit value
        r[0] = min(r[0], a["tail"][0])
        r[1] = max(r[1] if r[1] < INF else r[0] + 3, a["tail"][0])
        r[2] = (r[2] if r[2] < INF else r[0]) + rng.uniform(1e-6, 1e-3)
  return arms


def gen_cfg(rng, K, converge=False):
  upr = rng.choice([1, 1, 2, 3, 5, 10, 17])
  rounds = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
  limit = rounds * rng.choice([K * upr, K * upr, 2 * upr, upr]) + rng.choice(
      [0, 0, 0, -1, 1, rng.randrange(0, K * upr + 1)])
  limit = max(0, limit)
  tol = rng.choice([0, 0, 0, 0.25, 0.5, 1.0, round(rng.uniform(0, 2), 3)])
  conf = rng.choice(["default", "default", None, 0.05, 0.3])
  if converge and rng.random() < 0.7:
    limit = rng.choice([None, INF])
    conf = rng.choice([0.05, 0.3])
  return dict(error_prob=rng.choice([0.05, 0.1, 0.5, 0.9, 0.01,
                                     round(rng.uniform(0.001, 0.999), 4)]),
              tol=tol, limit=limit, upr=upr, confidence=conf)


def gen_session(rng, plan, n=None, resets=True, modes=("gen", "gen", "data"),
                alg=None):
  ops = []
  for k in range(n or rng.choice([1, 1, 1, 2, 3])):
    if k and resets and rng.random() < 0.5:
      ops.append(dict(op="reset", alg=rng.choice(ALGS)))
    mode = rng.choice(modes)
    if plan["cfg"]["limit"] in (None, INF) and mode == "data":
      mode = "gen"
    ops.append(dict(op="run", alg=alg or rng.choice(ALGS), mode=mode, faults={}))
  return ops


def gen_base(rng, **kw):
  K = rng.choice([2, 2, 2, 3, 3, 3, 4, 4, 5, 6, 8])
  conv = rng.random() < kw.pop("p_conv", 0.2)
  plan = dict(arms=gen_arms(rng, K, conv), cfg=gen_cfg(rng, K, conv))
  upr = plan["cfg"]["upr"]
  plan["data_len"] = rng.choice([0, 1, upr, 3 * upr, 5 * upr + upr // 2,
                                 rng.randrange(0, 12 * upr + 1)])
  plan["ops"] = gen_session(rng, plan, **kw)
  plan["same_names"] = rng.random() < 0.2
  return plan


def add_shorts(rng, plan, p=0.4):
  """Short or empty reads of the generator."""
  for op in plan["ops"]:
    if op["op"] == "run" and op["mode"] == "gen" and rng.random() < p:
      op["faults"]["short"] = {
          str(rng.randrange(1, 25)): rng.choice([0, 0, 1, plan["cfg"]["upr"] // 2])
          for _ in range(rng.randrange(1, 6))}
      if rng.random() < 0.25:
        op["faults"]["short"]["dry"] = rng.choice([1, 2, 3, 5, rng.randrange(1, 25)])


def add_fault(rng, op, hot=14):
  kind = core.fault_kind(rng)
  if op["mode"] == "gen" and rng.random() < 0.4:
    if rng.random() < 0.3:  # what a source that ran dry or broke raises
      kind = rng.choice(["EOFError", "TimeoutError", "ConnectionError",
                         "IndexError"])
    op["faults"]["gen"] = dict(at=rng.randrange(1, hot), kind=kind)
  else:
    op["faults"]["arm"] = dict(at=rng.randrange(1, hot), kind=kind,
                               when=rng.choice(["pre", "post"]))


class BanditCheck(Check):
  real = REAL
  stub = STUB
  n = {"quick": 6000, "thorough": 400000}
  rule = ("one run = scripted arms (2-8; const, lattice, drifting, vacuous, "
          "zero-width, tied, shrinking histories; costs), a configuration and "
          "a session of run/reset calls, all drawn from the run seed; "
          "non-trivial = at least one run of the session completed two or more "
          "rounds")

  kw = {}
  shorts = 0.0
  step_limit = 30000

  def gen(self, rng, i, tier):
    plan = gen_base(rng, **self.kw)
    if self.shorts and i % 2:
      add_shorts(rng, plan, self.shorts)
    return plan

  def valid(self, plan):
    ok = 2 <= len(plan["arms"]) <= 8 and plan["cfg"]["upr"] >= 1
    ok = ok and all(a["cost"] > 0 and len(a["tail"]) == 2 and
                    all(len(r) == 3 and r[0] <= r[1] and r[2] >= 0 and
                        r[1] > -INF and r[2] is not None for r in a["script"])
                    for a in plan["arms"])
    c = plan["cfg"]
    ok = ok and 0 < c["error_prob"] < 1 and c["tol"] >= 0
    ok = ok and isinstance(c["upr"], int)
    ok = ok and c["confidence"] in ("default", None, 0.05, 0.3)
    lim = c["limit"]
    if lim is None or lim == INF:
      vs = sorted(a["cost"] * a["tail"][0] for a in plan["arms"])
      ok = ok and all(y - x > 0.05 for x, y in zip(vs, vs[1:]))
      ok = ok and c["confidence"] in (0.05, 0.3)
      ok = ok and all(r[0] <= a["tail"][0] <= r[1] < INF and r[2] < INF
                      for a in plan["arms"] for r in a["script"])
      # LUCB never updates an arm that is tied for the lowest estimate with a
      # lower upper bound: such intervals need not separate
      pts = [(a["cost"] * v, i) for i, a in enumerate(plan["arms"])
             for v in [a["tail"][0]] + [r[2] for r in a["script"]]]
      pts.sort()
      ok = ok and all(y[0] - x[0] > 1e-9 or x[1] == y[1]
                      for x, y in zip(pts, pts[1:]))
      ok = ok and all(o["op"] != "run" or o["mode"] == "gen" for o in plan["ops"])
    else:
      ok = ok and lim >= 0
    for o in plan["ops"]:
      ok = ok and o["alg"] in ALGS
      ok = ok and (o["op"] != "run" or o["mode"] in ("gen", "data"))
    return ok and plan["data_len"] is not None and plan["data_len"] >= 0

  def run(self, ctx, plan):
    ctx.step_limit = self.step_limit
    w = World(ctx, plan)
    recs = []
    for op in plan["ops"]:
      if op["op"] == "reset":
        w.reset(op["alg"])
        continue
      rec = w.run(op["alg"], op["mode"], op["faults"])
      rec.full = not op["faults"].get("short") and op["mode"] == "gen"
      if rec.exc is None and rec.result is not None:
        self.probe(ctx, rec)
        if len(rec.ups) > rec.K:
          ctx.nontrivial = True
      recs.append(rec)
      self.judge(ctx, plan, w, rec, recs)

  def probe(self, ctx, rec):
    limit = rec.cfg["limit"]
    n = len(rec.ups)
    ctx.probe("run:" + rec.alg)
    ctx.probe("mode:" + rec.mode)
    if limit is None or n * rec.cfg["upr"] <= limit:
      ctx.probe("ended by certificate:" + rec.alg)
    else:
      ctx.probe("ended by budget:" + rec.alg)
    last = [a.triple[2] * a.cost for a in rec.arm_objs if a.triple[2] is not None]
    if len(set(last)) < len(last):
      ctx.probe("tied estimates at the end")
    if len(set(last)) == 1:
      ctx.probe("all estimates equal at the end")
    if any(a.triple[1] == INF for a in rec.arm_objs):
      ctx.probe("infinite bound at the end")

  def judge(self, ctx, plan, w, rec, recs):
    raise NotImplementedError


@register
class C01(BanditCheck):
  id = "C01"
  shorts = 0.5

  def judge(self, ctx, plan, w, rec, recs):
    expect(rec.exc is None, "raised", lambda: f"{rec.exc!r}")
    model.oracle_budget(rec)


@register
class C02(BanditCheck):
  id = "C02"
  kw = dict(p_conv=0.45)

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    if i % 2:
      # every interval contains the arm's true value
      plan["truths"] = []
      for a in plan["arms"]:
        t = rng.choice([0.5, 1, 1.5, 2, 3, round(rng.uniform(0.1, 4), 2)])
        plan["truths"].append(t)
        wide = rng.choice([0.5, 1, 3])
        for k, r in enumerate(a["script"]):
          l = max(0.0, t - rng.choice([0, 1, rng.random()]) * wide)
          u = t + rng.choice([0, 1, rng.random()]) * wide
          a["script"][k] = [l, u, rng.choice([l, u, t, rng.uniform(l, u)])]
          wide *= rng.choice([1, 0.8, 0.5])
        a["tail"] = [t, a["tail"][1]]
      if not self.valid(plan):
        plan["cfg"]["limit"] = 40 * plan["cfg"]["upr"]
    return plan

  def valid(self, plan):
    if not super().valid(plan):
      return False
    t = plan.get("truths")
    if t is None:
      return True
    return len(t) == len(plan["arms"]) and all(
        x >= 0 and a["tail"][0] == x and
        all(r[0] <= x <= r[1] for r in a["script"])
        for x, a in zip(t, plan["arms"]))

  def judge(self, ctx, plan, w, rec, recs):
    model.oracle_certified(rec)
    if plan.get("truths"):
      model.oracle_pac(rec, plan["truths"])
      ctx.probe("pac judged")


@register
class C03(BanditCheck):
  id = "C03"
  kw = dict(p_conv=0.1)

  def judge(self, ctx, plan, w, rec, recs):
    model.oracle_answer(rec)


@register
class C04(BanditCheck):
  id = "C04"
  shorts = 0.3

  def judge(self, ctx, plan, w, rec, recs):
    model.oracle_accounting(rec, rec.full)


@register
class C05(BanditCheck):
  id = "C05"
  kw = dict(n=None)

  def gen(self, rng, i, tier):
    plan = gen_base(rng, n=rng.choice([1, 2, 3]))
    return plan

  def judge(self, ctx, plan, w, rec, recs):
    model.oracle_history(rec)
    rec.frozen = core.jdump(rec.table())
    for k, r in enumerate(recs[:-1]):
      expect(core.jdump(r.table()) == r.frozen, "earlier-result-changed",
             lambda: f"the result of run {k} changed during run {len(recs) - 1}")
      ctx.probe("earlier result re-read")


@register
class C06(BanditCheck):
  id = "C06"
  kw = dict(alg="lucb", p_conv=0.1)

  def judge(self, ctx, plan, w, rec, recs):
    p = model.oracle_lucb(rec)
    if p["tie"]:
      ctx.probe("tie within a role", p["tie"])
    if p["alltie"]:
      ctx.probe("no challenger", p["alltie"])


@register
class C07(BanditCheck):
  id = "C07"
  kw = dict(alg="se", p_conv=0.15)

  def judge(self, ctx, plan, w, rec, recs):
    model.oracle_se(rec)
    if len(rec.ups) % rec.K:
      ctx.probe("an arm was eliminated")


@register
class C08(BanditCheck):
  id = "C08"
  shorts = 0.4

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    runs = [o for o in plan["ops"] if o["op"] == "run"]
    runs[-1]["alg"] = "uniform"   # possibly after runs of other algorithms
    return plan

  def judge(self, ctx, plan, w, rec, recs):
    if rec.alg == "uniform":
      model.oracle_uniform(rec, plan["data_len"])


@register
class C10(BanditCheck):
  id = "C10"

  def gen(self, rng, i, tier):
    plan = super().gen(rng, i, tier)
    if i % 3 == 0:
      for op in plan["ops"]:
        if op["op"] == "run":
          add_fault(rng, op)
    return plan

  def judge(self, ctx, plan, w, rec, recs):
    model.oracle_delta(rec)


# --------------------------------------------------------------------------


@register
class C09(BanditCheck):
  id = "C09"
  rule = ("one run = scripted arms sharing a dataset and a session of runs of "
          "different algorithms, some cut short by an injected exception, "
          "interrupt or allocation failure (before or after the arm ingested "
          "its batch) and resumed without reset; non-trivial = a resumed or "
          "follow-up run updated some arm again")

  def gen(self, rng, i, tier):
    if i % 5 == 4:
      return realrace.gen_plan(rng, True)
    plan = gen_base(rng, p_conv=0.0, n=rng.choice([1, 2, 3, 4, 5]),
                    modes=("data",))
    upr = plan["cfg"]["upr"]
    plan["data_len"] = rng.choice([upr, 5 * upr, 20 * upr + upr // 2,
                                   rng.randrange(1, 40 * upr)])
    for op in plan["ops"]:
      if op["op"] == "reset" and rng.random() < 0.5:
        op["op"] = "noop"
      if i % 4 and op["op"] == "run" and rng.random() < 0.6:
        add_fault(rng, op)
      if rng.random() < 0.3:      # the next run takes rounds of another size
        op["upr"] = rng.choice([1, 2, 4, 7, 2 * upr])
    return plan

  def valid(self, plan):
    if plan.get("real"):
      return realrace.valid(plan) and plan["data"]
    return super().valid(plan) and all(
        isinstance(o.get("upr", 1), int) and o.get("upr", 1) >= 1
        for o in plan["ops"])

  def judge(self, ctx, plan, w, rec, recs):
    pass

  def run(self, ctx, plan):
    ctx.step_limit = self.step_limit
    if plan.get("real"):
      return realrace.prefix_session(ctx, plan)
    w = World(ctx, plan)
    upr, n = plan["cfg"]["upr"], plan["data_len"]
    used = [0] * len(w.arms)
    runs = 0
    for op in plan["ops"]:
      if op["op"] == "reset":
        w.reset(op["alg"])
        used = [0] * len(w.arms)
        continue
      if op["op"] != "run":
        continue
      resumed = any(used)
      rec = w.run(op["alg"], "data", op["faults"], op.get("upr"))
      upr = rec.cfg["upr"]
      runs += 1
      for u in rec.ups:
        a = u[1]
        want = list(range(used[a], min(used[a] + upr, n)))
        expect(list(u[2]) == want, "wrong-units",
               lambda: f"{op['alg']} (run {runs}): arm {a} had read {used[a]} "
               f"units of {n} and then received units {list(u[2])[:12]}"
               f"{'...' if len(u[2]) > 12 else ''}, expected "
               f"{want[:12]}")
        used[a] += len(u[2])
      expect(not rec.gens, "generator-used", "the generator was called although "
             "a dataset was given")
      if resumed and rec.ups:
        ctx.nontrivial = True
        ctx.probe("resumed without reset:" + op["alg"])
      if rec.exc is not None:
        ctx.probe("run cut short:" + op["alg"])
    expect(ids_of(w.dataset, what="the dataset") == list(range(n)),
           "dataset-changed", "the dataset was modified")


@register
class C11(BanditCheck):
  id = "C11"
  rule = ("one run = a bandit whose runs are hit by an injected exception, "
          "interrupt or allocation failure at a data-source call, an arm "
          "update (before or after it takes effect) or an arbitrary executed "
          "line of the package, possibly several times; then reset and one run "
          "compared with a bandit that never failed; non-trivial = the fault "
          "fired")

  def gen(self, rng, i, tier):
    if i % 5 == 4:
      return realrace.gen_plan(rng, rng.random() < 0.5)
    plan = gen_base(rng, n=1)
    op = plan["ops"][0]
    crashes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
      c = copy.deepcopy(op)
      c["alg"] = rng.choice([op["alg"], op["alg"], rng.choice(ALGS)])
      c["faults"] = {}
      if rng.random() < 0.4:
        c["line"] = rng.randrange(1, 2 + int(600 * rng.random() ** 2))
      else:
        add_fault(rng, c, hot=30)
      c["reset_line"] = rng.choice([None, None, rng.randrange(1, 12)])
      crashes.append(c)
    plan["crashes"] = crashes
    return plan

  def valid(self, plan):
    if plan.get("real"):
      return realrace.valid(plan)
    return super().valid(plan) and len(plan["ops"]) == 1 and all(
        c["alg"] in ALGS and c["mode"] in ("gen", "data")
        for c in plan["crashes"])

  def judge(self, ctx, plan, w, rec, recs):
    pass

  def run(self, ctx, plan):
    ctx.step_limit = self.step_limit
    if plan.get("real"):
      return realrace.failure_session(ctx, plan)
    np = lib.np
    op = plan["ops"][0]
    if op["op"] != "run":
      raise core.PlanInvalid("no run")
    w = World(ctx, plan)
    reset_all = lambda: w.reset(op["alg"])
    for c in plan["crashes"]:
      if plan["cfg"]["limit"] in (None, INF) and c["mode"] == "data":
        raise core.PlanInvalid("endless")
      if c.get("line"):
        crash = core.CrashAtLine(ctx, c["line"])
        w.bandit(c["alg"])
        start = len(w.trace)
        with crash:
          try:
            rec = w.run(c["alg"], c["mode"], {})
          except core.InjectedInterrupt as e:  # raised outside World.run
            rec = None
            expect(e is crash.exc, "exception-replaced", f"{e!r}")
        if crash.fired:
          ctx.fault("interrupt_at_line")
          ctx.ev("crash at", crash.where)
          ctx.sig("line", crash.where)
          ctx.nontrivial = True
          if rec is not None:
            expect(rec.exc is crash.exc and rec.result is None,
                   "failure-swallowed",
                   lambda: f"{c['alg']}: an interrupt at executed line "
                   f"{c['line']} (in {crash.where}) did not reach the caller")
      else:
        rec = w.run(c["alg"], c["mode"], c["faults"])
        if rec.injected is not None:
          ctx.nontrivial = True
          expect(rec.result is None and rec.exc is not None, "failure-swallowed",
                 lambda: f"{c['alg']}: {rec.injected!r} was raised during the "
                 "run, which returned a result")
          expect(rec.exc is rec.injected, "exception-replaced",
                 lambda: f"{rec.injected!r} became {rec.exc!r}")
          at = max(k for k, t in enumerate(rec.trace) if t[0] == "fault")
          after = [t for t in rec.trace[at + 1:]]
          expect(not [t for t in after if t[0] == "upd"
                      and not self.own(t, rec, at)], "work-after-failure",
                 lambda: f"{c['alg']}: {after[:3]} happened after the failure")
      if c.get("reset_line"):
        crash = core.CrashAtLine(ctx, c["reset_line"])
        with crash:
          try:
            reset_all()
          except core.InjectedInterrupt:
            pass
        if crash.fired:
          ctx.fault("interrupt_in_reset")
    w.reset(op["alg"])
    np.random.seed(plan["np_seed"] % 2**32)
    a = w.run(op["alg"], op["mode"], {})
    fresh = World(ctx, plan)
    np.random.seed(plan["np_seed"] % 2**32)
    b = fresh.run(op["alg"], op["mode"], {})
    ta, tb = a.table(), b.table()
    for k in ta:
      expect(repr(ta[k]) == repr(tb[k]), "not-as-never-failed",
             lambda: f"{op['alg']}: after failure and reset {k} = "
             f"{str(ta[k])[:200]}, without failure {str(tb[k])[:200]}")

  def own(self, t, rec, at):
    return False

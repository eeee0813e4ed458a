"""Races over real arms with failing call-outs (parts of C09 and C11)."""
from sim import core, lab
from sim.core import expect, lib
from sim.world import ALGS, alg_class

WHERE = ("eta", "eta", "trans", "src", "line", "alloc")


def gen_fault(rng, K):
  w = rng.choice(WHERE)
  return dict(where=w, arm=rng.randrange(K), kind=core.fault_kind(rng),
              when=rng.choice(["pre", "post"]),
              at=rng.randrange(1, {"line": 500, "alloc": 60, "src": 6,
                                   "trans": 6, "eta": 16}[w]))


def valid_fault(f, K):
  return (f is None or (f["where"] in WHERE and 0 <= f["arm"] < K and
                        f["at"] >= 1 and f["kind"] in core.FAULT_CLASSES and
                        f["when"] in ("pre", "post")))


def gen_plan(rng, data):
  K = rng.choice([2, 2, 3])
  d = rng.choice([1, 2])
  arms = []
  for _ in range(K):
    sp = lab.gen_arm_spec(rng, ["toy", "toy", "toy", "aipw", "linreg", "linbin",
                                "boost"], boot=0.2)
    sp["d"], sp["cost"] = d, rng.choice([1, 1, 2, 0.5])
    arms.append(sp)
  upr = rng.choice([1, 2, 5, 9])
  ops = []
  for k in range(rng.choice([1, 2, 2, 3, 4])):
    if k and rng.random() < 0.2:
      ops.append(dict(op="reset", alg=rng.choice(ALGS)))
    ops.append(dict(op="run", alg=rng.choice(ALGS),
                    upr=upr if rng.random() < 0.7 else rng.choice([1, 3, 6]),
                    rounds=rng.choice([0, 1, 2, 4]),
                    fault=gen_fault(rng, K) if rng.random() < 0.7 else None))
  return dict(real=True, d=d, arms=arms, ops=ops, seed=rng.randrange(10**6),
              n=rng.choice([upr, 20, 60, 150]), data=data, upr=upr,
              final=rng.choice(ALGS), rounds=rng.choice([1, 3, 6]))


def valid(p):
  K = len(p["arms"])
  return (2 <= K <= 4 and p["d"] in (1, 2) and p["n"] >= 1 and p["upr"] >= 1 and
          p["final"] in ALGS and 0 <= p["rounds"] <= 10 and
          all(lab.valid_spec(a) and a["d"] == p["d"] and a["cost"] > 0 and
              a["eta"] != "front" for a in p["arms"]) and
          all(o["alg"] in ALGS and (o["op"] == "reset" or (
              o["op"] == "run" and o["upr"] >= 1 and 0 <= o["rounds"] <= 10 and
              valid_fault(o["fault"], K))) for o in p["ops"]))


class Race:
  """Real arms, a source over a unit stream, and faults at their call-outs."""

  def __init__(self, ctx, p):
    self.ctx, self.p = ctx, p
    need = max(p["n"], 40 + 11 * 4 * max([p["upr"]] + [
        o["upr"] for o in p["ops"] if o["op"] == "run"]))
    self.stream = lab.Stream(p["seed"], need, p["d"])
    self.dataset = self.stream.batch(range(p["n"])) if p["data"] else None
    self.fault, self.hits, self.exc = None, 0, None
    self.recs, self.arms, self.used = [], [], []
    self.updates = []
    self.pos = 0
    for k, sp in enumerate(p["arms"]):
      rec = lab.RecEta(lab.eta_for(sp), self.stream)
      arm = lab.make_arm(sp, rec, self.transformer(k))
      arm.cost = sp["cost"]
      self.recs.append(rec)
      self.arms.append(arm)
      self.used.append(0)
      self.wrap(k, arm)

  def trip(self, where, k):
    f = self.fault
    if f and f["where"] == where and (where == "src" or f["arm"] == k):
      self.hits += 1
      if self.hits == f["at"]:
        self.exc = core.make_fault(f["kind"], where)
        self.ctx.fault({"src": "source_fault",
                        "trans": "transformer_failed"}[where])
        raise self.exc

  def transformer(self, k):
    def f(d):
      self.trip("trans", k)
      return d
    return f

  def generate(self, n):
    """The data source: consecutive units of the stream, then from its start."""
    self.ctx.tick()
    self.trip("src", None)
    n = int(n)
    if self.pos + n > self.stream.n:
      self.pos = 0
    ids = range(self.pos, self.pos + n)
    self.pos += n
    return self.stream.batch(ids)

  def wrap(self, k, arm):
    orig = arm.update

    def update(new_data, delta):
      self.ctx.tick()
      ids = self.stream.ids(new_data, what=f"batch given to arm {k}")
      if self.dataset is not None:
        n, u = len(self.dataset), self.used[k]
        want = list(range(u, min(u + self.upr, n)))
        expect(ids == want, "wrong-units",
               lambda: f"{self.alg}: real arm {k} holds the first {u} of {n} "
               f"units and was given units {ids[:12]}, expected {want[:12]}")
      self.updates.append((k, len(ids)))
      try:
        r = orig(new_data, delta)
      except core.INJECTED:
        got = arm.get_num_units()
        if self.dataset is not None:
          u = self.used[k]
          expect(got in (u, u + len(ids)), "partial-batch",
                 lambda: f"real arm {k} held {u} units; after a failed update "
                 f"with {len(ids)} it reports {got}")
          self.used[k] = got
        raise
      self.used[k] += len(ids)
      return r

    arm.update = update

  def run(self, alg, upr, rounds, fault=None):
    self.alg, self.upr = alg, upr
    self.fault, self.hits, self.exc = fault, 0, None
    b = alg_class(alg)(self.arms, self, error_prob=.1,
                       sample_limit=rounds * upr * len(self.arms),
                       units_per_round=upr)
    for rec in self.recs:
      rec.calls, rec.failed, rec.fail = 0, False, None
      rec.take()
    res = exc = None
    mon = None
    if fault and fault["where"] == "eta":
      self.exc = core.make_fault(fault["kind"], "nuisance")
      self.recs[fault["arm"]].fail = dict(at=fault["at"], when=fault["when"],
                                          exc=self.exc)
    try:
      if fault and fault["where"] == "line":
        mon = core.CrashAtLine(self.ctx, fault["at"])
        self.exc = mon.exc
        with mon:
          res = b.run(self.dataset)
      elif fault and fault["where"] == "alloc":
        mon = core.AllocFaults(self.ctx, fault["at"])
        self.exc = mon.exc
        with mon:
          res = b.run(self.dataset)
      else:
        res = b.run(self.dataset)
    except core.INJECTED as e:
      exc = e
    fired = bool((mon and mon.fired) or (self.exc is not None and mon is None and
                                         (fault["where"] != "eta" or
                                          self.recs[fault["arm"]].failed)))
    if fault and fault["where"] == "line" and fired:
      self.ctx.fault("interrupt_at_line")
    if fault and fault["where"] == "eta" and fired:
      self.ctx.fault("nuisance_call_failed")
    for rec in self.recs:
      rec.fail = None
    want = self.exc
    self.fault = None
    self.ctx.ev("run", alg, upr, rounds, self.updates[-4:],
                type(exc).__name__ if exc else None)
    self.ctx.sig(alg, fault and fault["where"], fired, len(self.updates))
    if fired:
      expect(exc is not None, "failure-swallowed",
             lambda: f"{alg}: {want!r} was raised during the run, which returned "
             "a result")
      expect(exc is want, "exception-replaced", lambda: f"{want!r} became {exc!r}")
    return b, res, exc

  def reset(self, alg):
    alg_class(alg)(self.arms, self, error_prob=.1, sample_limit=1).reset()
    self.used = [0] * len(self.arms)

  def table(self, r):
    by = lambda m: [[float(x) for x in m[a]] for a in self.arms]
    return dict(lcb=by(r.lcb_by_arm), ucb=by(r.ucb_by_arm),
                var=by(r.var_est_by_arm), n=by(r.samples_by_arm),
                cum=[float(x) for x in r.cum_samples],
                best=[self.arms.index(a) for a in r.best_arm])


def prefix_session(ctx, p):
  """C09 over real arms."""
  race = Race(ctx, p)
  cut = False
  for o in p["ops"]:
    if o["op"] == "reset":
      race.reset(o["alg"])
      cut = False
      continue
    if cut and any(race.used):
      ctx.nontrivial = True
      ctx.probe("real arms resumed without reset")
    _, _, exc = race.run(o["alg"], o["upr"], o["rounds"], o["fault"])
    cut = cut or exc is not None
  # Faults have stopped: one round, then every arm holds its prefix.
  race.run("uniform", p["upr"], 0)
  for k, (arm, rec) in enumerate(zip(race.arms, race.recs)):
    expect(arm.get_num_units() == race.used[k], "unit-count",
           lambda: f"real arm {k} was given its first {race.used[k]} units and "
           f"reports {arm.get_num_units()}")
    log = rec.take()
    fits = [c[1] for c in log if c[0] == "fit"]
    scores = [c[1] for c in log if c[0] == "score"]
    if not fits or not scores:
      continue
    f0 = max(fits, key=len)
    f1 = next((s for s in scores if not set(s) & set(f0)), None)
    if f1 is None:
      continue
    expect(sorted(f0 + f1) == list(range(race.used[k])), "not-a-prefix",
           lambda: f"real arm {k} holds units {sorted(f0 + f1)[:40]}, expected "
           f"the first {race.used[k]}")
    ctx.probe("prefix held by a real arm")


def failure_session(ctx, p):
  """C11 over real arms."""
  np = lib.np
  race = Race(ctx, p)
  for o in p["ops"]:
    if o["op"] == "reset":
      race.reset(o["alg"])
      continue
    exc = race.run(o["alg"], o["upr"], o["rounds"], o["fault"])[2]
    if exc is not None:
      ctx.nontrivial = True
      ctx.probe("real arms: run cut short")

  def last(r):
    r.pos = 0
    np.random.seed(p["np_seed"] % 2**32)
    return r.table(r.run(p["final"], p["upr"], p["rounds"])[1])

  race.reset(p["final"])
  a = last(race)
  b = last(Race(ctx, p))

  def same(x, y):
    if isinstance(x, list):
      return len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
    return lab.same_num(x, y, 1e-6, 1e-9)

  for k in a:
    expect(same(a[k], b[k]), "not-as-never-failed",
           lambda: f"real arms, {p['final']}: after failure and reset {k} = "
           f"{str(a[k])[:300]}, without failure {str(b[k])[:300]}")

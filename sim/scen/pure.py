"""Functions of a unit alone, under every schedule and fault: C31, C33-C37.

Scores, conditional probabilities, transformers and random functions are
applied to whatever chunks of units arrive, from several arms and threads, and
calls may be cut off anywhere.  What they give for one unit must be the same
each time.
"""
import math
import random

from sim import core, lab
from sim.core import expect, lib
from sim.registry import Check, register
from sim.scen.arm import ref_width


def gen_ids(rng, m, k=None):
  k = k or rng.choice([1, 1, 2, 3, m, rng.randrange(1, m + 1)])
  if rng.random() < 0.3:
    return [rng.randrange(m)] * k
  if rng.random() < 0.3:
    a = rng.randrange(m)
    return [(a + j) % m for j in range(k)]
  return [rng.randrange(m) for _ in range(k)]


def gen_gaps(rng, n=24, top=40):
  hi = rng.choice([3, 12, top])
  return [[rng.randrange(1, hi), rng.randrange(4)]
          for _ in range(rng.choice([4, 8, n]))]


KINDS = ("part", "part", "one", "line", "line", "alloc", "conc", "again",
         "inplace", "scribble")


def gen_calls(rng, m, lines=40, k=None):
  """A history of calls on the units 0..m-1."""
  out = []
  for _ in range(k or rng.choice([3, 5, 8])):
    kind = rng.choice(KINDS)
    op = dict(op=kind, ids=gen_ids(rng, m))
    if kind in ("line", "alloc"):
      op["n"] = rng.randrange(1, lines) if kind == "line" else (
          rng.randrange(1, 12))
      op["exc"] = rng.choice(["interrupt", "interrupt", "alloc", "fault"])
    elif kind == "conc":
      op["more"] = [gen_ids(rng, m) for _ in range(rng.choice([1, 1, 2]))]
      op["gaps"] = gen_gaps(rng)
    elif kind == "inplace":
      op["ids2"] = gen_ids(rng, m, len(op["ids"]))
    out.append(op)
  return out


def valid_calls(ops, m):
  for o in ops:
    lists = [o["ids"]] + o.get("more", []) + [o.get("ids2", o["ids"])]
    if any(not l or min(l) < 0 or max(l) >= m for l in lists):
      return False
    if o["op"] == "inplace" and len(o["ids2"]) != len(o["ids"]):
      return False
    if o["op"] in ("line", "alloc") and o["n"] < 1:
      return False
  return True


class Pure:
  """Drives one function of units through a history of calls.

  make(ids) builds a fresh argument, call(argument) gives one row per unit,
  ref holds the row of every unit, keep(argument) is a comparable copy of it.
  """

  def __init__(self, ctx, what, make, call, ref, keep, refill=None, tol=1e-8,
               scribble=True):
    self.ctx, self.what = ctx, what
    self.make, self.call, self.ref, self.keep = make, call, ref, keep
    self.refill, self.tol = refill, tol
    self.scribble_ok = scribble

  def judge(self, got, ids, how):
    np = lib.np
    want = self.ref[ids]
    got = np.asarray(got, dtype=float)
    expect(got.shape == want.shape, "shape",
           lambda: f"{self.what} of {len(ids)} units, {how}: shape {got.shape} "
           f"instead of {want.shape}")
    scale = np.nanmax(np.abs(self.ref)) if self.ref.size else 0.0
    bad = ~((np.abs(got - want) <= self.tol * (1 + scale)) |
            (np.isnan(got) & np.isnan(want)))
    expect(not bad.any(), "depends-on-context",
           lambda: f"{self.what} of the same unit differs, {how}: unit "
           f"{ids[int(np.argwhere(bad)[0][0])]} gives {got[bad][:3]} and gave "
           f"{want[bad][:3]}")
    self.ctx.tick()
    self.ctx.ev(self.what, how, len(ids))
    self.ctx.sig(self.what, how, len(ids), len(set(ids)))

  def plain(self, ids, how="in another chunk"):
    a = self.make(ids)
    before = self.keep(a)
    got = self.call(a)
    expect(self.keep(a) == before, "input-modified",
           lambda: f"{self.what} modified the units it was given")
    self.judge(got, ids, how)
    return got

  def broken(self, o):
    exc = core.make_fault(o["exc"], "in a call")
    a = self.make(o["ids"])
    before = self.keep(a)
    guard = (core.CrashAtLine(self.ctx, o["n"], exc) if o["op"] == "line" else
             core.AllocFaults(self.ctx, o["n"]))
    got = None
    with guard as g:
      try:
        got = self.call(a)
      except core.INJECTED:
        if o["op"] == "line":
          self.ctx.fault(o["exc"] + "_at_line")
          self.ctx.sig("cut", g.where)
        self.ctx.nontrivial = True
      else:
        if g.fired:
          expect(False, "swallowed", f"{self.what}: an injected failure did "
                 "not surface")
    expect(self.keep(a) == before, "input-modified",
           lambda: f"an aborted call of {self.what} modified its units")
    if got is not None:
      self.judge(got, o["ids"], "with a late fault")
    self.plain(o["ids"], "after an aborted call")

  def concurrent(self, o):
    lists = [o["ids"]] + o["more"]
    args = [self.make(ids) for ids in lists]
    sched = core.Scheduler(self.ctx, o["gaps"])
    for k, a in enumerate(args):
      sched.spawn(lambda a=a: self.call(a), 100 + k)
    for k, t in enumerate(sched.run()):
      if t.exc is not None:
        raise t.exc
      self.judge(t.res, lists[k], "computed concurrently")
    if sched.switches:
      self.ctx.nontrivial = True
      self.ctx.probe("preemptions", sched.switches)

  def run(self, ops):
    np = lib.np
    for o in ops:
      kind, ids = o["op"], o["ids"]
      self.ctx.probe("call " + kind)
      if kind in ("line", "alloc"):
        self.broken(o)
      elif kind == "conc":
        self.concurrent(o)
      elif kind == "one":
        for i in ids[:4]:
          self.plain([i], "alone")
      elif kind == "again":
        a = self.make(ids)
        for _ in range(2):
          self.judge(self.call(a), ids, "asked again")
      elif kind == "inplace" and self.refill:
        a = self.make(ids)
        self.judge(self.call(a), ids, "before its buffer is reused")
        self.refill(a, o["ids2"])
        self.ctx.fault("buffer_overwrite")
        self.judge(self.call(a), o["ids2"], "in a reused buffer")
      elif kind == "scribble" and self.scribble_ok:
        got = self.plain(ids)
        if isinstance(got, np.ndarray) and got.flags.writeable:
          got[...] = 7
          self.ctx.fault("result_overwrite")
        self.plain(ids, "after an earlier result was overwritten")
      else:
        self.plain(ids)


def keep_data(d):
  return tuple((a.shape, str(a.dtype), a.tobytes())
               for a in (d.cov, d.exp, d.rsp))


# --------------------------------------------------------------------------


@register
class C31(Check):
  id = "C31"
  real = ["nuisance parameters, TabularCPD, ExpData, scikit-learn"]
  stub = ["unit streams", "thread schedule"]
  n = {"quick": 1200, "thorough": 60000}
  rule = ("one run = a nuisance parameter fitted once and a history of scoring "
          "calls on chunks of 1 to 24 units: other chunks, single units, "
          "repeats, calls cut off at an arbitrary executed line or array "
          "construction, concurrent calls under a seeded line-granular "
          "schedule (also beside a second parameter of the same kind), reused "
          "and overwritten buffers; non-trivial = a call was cut off or "
          "preempted")

  def gen(self, rng, i, tier):
    eta = rng.choice(lab.ETAS + ("front",))
    m = rng.choice([4, 8, 16, 24])
    lines = 150 if eta == "front" else 40
    ops = gen_calls(rng, m, lines)
    for k in range(len(ops)):
      if rng.random() < 0.25:
        ops[k] = dict(op="other", ids=gen_ids(rng, m), seed=rng.randrange(10**6),
                      gaps=gen_gaps(rng) if rng.random() < 0.6 else None)
      elif rng.random() < 0.1:
        ops[k] = dict(op="width", ids=[0])
    return dict(eta=eta, d=rng.choice([1, 2, 3]), min_units=rng.choice([2, 3, 5]),
                overlap=rng.choice([0.05, 0.1, 0.25]),
                opts=lab.gen_opts(rng, eta), seed=rng.randrange(10**6),
                n=rng.choice([20, 40, 60]), m=m, shift=rng.choice([0, 0, 0, 2]),
                treat=rng.choice(["mixed", "mixed", "all", "none"]),
                reuse=rng.random() < 0.3, ops=ops)

  def valid(self, p):
    return p["eta"] in lab.ETAS and p["d"] in (1, 2, 3) and (
        p["min_units"] >= 2) and p["n"] >= 20 and p["m"] >= 1 and (
            0 < p["overlap"] <= 0.25) and valid_calls(p["ops"], p["m"])

  def run(self, ctx, p):
    np = lib.np
    kind = "finite" if p["eta"] == "front" else "cont"
    make_eta = lambda: lab.make_eta(p["eta"], p["d"], p["min_units"],
                                    p["overlap"], p["opts"])
    s = lab.Stream(p["seed"], p["n"], p["d"], kind)
    if not lab.sufficient(p["eta"], p["min_units"], list(s.exp)):
      return
    t = lab.Stream(p["seed"] + 1, p["m"], p["d"], kind)
    t.cov = t.cov + (p["shift"] if kind == "cont" else 0)
    if p["shift"] and kind == "finite":   # values that were never seen
      t.cov[:: 3] = 5.0
    if p["treat"] != "mixed":
      t.set_exposure(range(p["m"]), int(p["treat"] == "all"))
    eta, twin = make_eta(), make_eta()
    train = s.batch(range(p["n"]))
    eta.fit(train)
    twin.fit(s.batch(range(p["n"])))
    ref = np.array(twin.calculate_score(t.batch(range(p["m"]))), dtype=float)
    width = None
    if p["eta"] in lab.WIDTHS:
      width = float(twin.calculate_cs_width(0.05, sub_g=1, rho=.1))
    if p["reuse"]:   # the caller's buffers; the width is that of recent_data
      width = None
      for a in (train.cov, train.exp, train.rsp):
        a[...] = 1
      ctx.fault("buffer_overwrite")
    ctx.ev("fit", p["eta"], p["n"])

    def refill(d, ids):
      d.cov[...] = t.cov[ids]
      d.exp[...] = t.exp[ids]
      d.rsp[...] = t.rsp[ids]

    pure = Pure(ctx, "the score", t.batch, eta.calculate_score, ref, keep_data,
                refill)
    for o in p["ops"]:
      if o["op"] == "other":
        self.beside(ctx, p, o, eta, make_eta, t, pure)
      elif o["op"] == "width":
        if p["eta"] in lab.WIDTHS:
          eta.calculate_cs_width(0.01, sub_g=2, rho=.5)
        pure.plain(o["ids"], "after a width was computed")
      else:
        pure.run([o])
      expect(eta.has_enough_samples(), "fit-lost", "scoring lost the fit")
    pure.plain(list(range(p["m"])), "at the end")
    if width is not None:
      w = float(eta.calculate_cs_width(0.05, sub_g=1, rho=.1))
      expect(lab.same_num(w, width), "width-changed",
             lambda: f"scoring changed the width from {width} to {w}")

  def beside(self, ctx, p, o, eta, make_eta, t, pure):
    """Another parameter of the kind is fitted and scored, maybe meanwhile."""
    n = 30
    s2 = lab.Stream(o["seed"], n, p["d"],
                    "finite" if p["eta"] == "front" else "cont", effect=-3.0)
    other = make_eta()

    def second():
      other.fit(s2.batch(range(n)))
      return other.calculate_score(s2.batch(range(n)))

    if o["gaps"] is None:
      second()
      pure.plain(o["ids"], "after another parameter was fitted")
      return
    sched = core.Scheduler(ctx, o["gaps"])
    a = t.batch(o["ids"])
    sched.spawn(lambda: eta.calculate_score(a), 1)
    sched.spawn(second, 2)
    for k, task in enumerate(sched.run()):
      if task.exc is not None:
        raise task.exc
      if k == 0:
        pure.judge(task.res, o["ids"], "while another parameter is fitted")
    if sched.switches:
      ctx.nontrivial = True
      ctx.probe("preemptions", sched.switches)


# --------------------------------------------------------------------------


@register
class C33(Check):
  id = "C33"
  real = ["AIPW, AIPWLinearLogistic, LinearParameterBinaryTreatment, "
          "LinearDataGenerator, scikit-learn linear models"]
  stub = ["unit streams"]
  n = {"quick": 3000, "thorough": 80000}
  rule = ("one run = a linear nuisance parameter with a history of fits, "
          "insufficient or aborted fits, resets, earlier and aborted settings "
          "to the truth of other generators and refused ones, then set to the "
          "truth of a linear generator and compared with the closed formula; "
          "then refitted or reset; non-trivial = the history is not empty")

  KINDS = ("linbin", "aipw", "generic", "generic")

  def gen_truth(self, rng, d):
    big = rng.choice([0.5, 1.0, 4.0])
    return dict(tau=rng.choice([0.0, rng.gauss(0, 2)]),
                beta=[rng.gauss(0, 1) for _ in range(d)],
                gamma=None if rng.random() < 0.15 else
                [rng.gauss(0, big) for _ in range(d)])

  def gen(self, rng, i, tier):
    d = rng.choice([1, 2, 3])
    ops = []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
      op = rng.choice(["fit", "fit", "few", "reset", "truth", "score",
                       "refused"])
      o = dict(op=op, seed=rng.randrange(10**6),
               line=rng.choice([None, None, rng.randrange(1, 30)]),
               alloc=rng.random() < 0.3)
      if op == "truth":
        o["gen"] = self.gen_truth(rng, d)
        if o["line"]:
          o["line"] = rng.randrange(1, 10)
      ops.append(o)
    return dict(eta=rng.choice(self.KINDS), d=d, min_units=rng.choice([2, 5]),
                overlap=rng.choice([0.05, 0.1, 0.25]),
                opts=lab.gen_opts(rng, "generic"), gen=self.gen_truth(rng, d),
                ops=ops, seed=rng.randrange(10**6), m=rng.choice([1, 5, 20]),
                after=rng.choice(["none", "fit", "reset"]))

  def valid(self, p):
    return p["eta"] in self.KINDS and p["d"] in (1, 2, 3) and p["m"] >= 1 and (
        p["min_units"] >= 2) and len(p["gen"]["beta"]) == p["d"]

  def generator(self, g, d):
    np = lib.np
    return lib.data.LinearDataGenerator(
        "truth", d, np.array(g["beta"], dtype=float), g["tau"],
        gamma=None if g["gamma"] is None else np.array(g["gamma"], dtype=float))

  def formula(self, p, t):
    g, out = p["gen"], []
    for x, z, y in zip(t.cov, t.exp, t.rsp):
      lin = sum(a * b for a, b in zip(x, g["beta"]))
      e = 1 / (1 + math.exp(-sum(a * b for a, b in zip(
          x, g["gamma"] or [0] * p["d"]))))
      e = min(max(e, p["overlap"]), 1 - p["overlap"])
      s = g["tau"]
      if p["eta"] != "linbin":
        s += (y - lin - z * g["tau"]) * (z / e - (1 - z) / (1 - e))
      out.append(s)
    return out

  def run(self, ctx, p):
    np = lib.np
    make = lambda: lab.make_eta(p["eta"], p["d"], p["min_units"], p["overlap"],
                                p["opts"])
    eta = make()
    t = lab.Stream(p["seed"], p["m"], p["d"])
    units = lambda: t.batch(range(p["m"]))
    torn = False    # between two calls: only the next full one counts
    for o in p["ops"]:
      if o["op"] in ("score", "refused") and torn:
        continue
      torn = self.step(ctx, p, eta, o, units)
      ctx.nontrivial = True
    gen = self.generator(p["gen"], p["d"])
    eta.set_to_truth(gen)
    ctx.tick()
    got = np.array(eta.calculate_score(units()), dtype=float)
    want = np.array(self.formula(p, t), dtype=float)
    expect(got.shape == want.shape and bool(
        np.all(np.abs(got - want) <= 1e-8 * (1 + np.abs(want)))), "not-the-truth",
           lambda: f"{p['eta']}: set to the truth of {p['gen']}, scores "
           f"{got[:4]} instead of {want[:4]} after {[o['op'] for o in p['ops']]}")
    expect(np.array_equal(gen.beta, np.array(p["gen"]["beta"])) and
           gen.tau == p["gen"]["tau"] and np.array_equal(
               gen.gamma, np.array(p["gen"]["gamma"] or [0.0] * p["d"])),
           "generator-changed", "setting to the truth changed the generator")
    ctx.ev("truth", p["eta"], repr(got[:3]))
    ctx.sig(p["eta"], p["m"], [(o["op"], bool(o["line"])) for o in p["ops"]])
    if p["after"] == "reset":
      eta.reset()
      fresh = make()
      a, b = (np.asarray(e.calculate_score(units()), dtype=float)
              for e in (eta, fresh))
      expect(np.array_equal(a, b, equal_nan=True), "truth-survives-reset",
             lambda: f"{p['eta']}: after reset scores {a[:3]}, new {b[:3]}")
    elif p["after"] == "fit":
      s = lab.Stream(p["seed"] + 7, 60, p["d"])
      eta.fit(s.batch(range(60)))
      fresh = make()
      fresh.fit(s.batch(range(60)))
      a, b = (np.asarray(e.calculate_score(units()), dtype=float)
              for e in (eta, fresh))
      tol = (2e-2 if p["eta"] == "aipw" else 1e-8) * (
          np.std(b) + np.abs(b) + 1e-6)
      expect(bool(np.all(np.abs(a - b) <= tol)), "truth-survives-fit",
             lambda: f"{p['eta']}: after a fit scores {a[:3]}, of a new "
             f"parameter {b[:3]}")
      expect(np.array_equal(gen.beta, np.array(p["gen"]["beta"])) and
             np.array_equal(gen.gamma, np.array(p["gen"]["gamma"] or
                                                [0.0] * p["d"])),
             "generator-changed", "a later fit changed the generator")

  def step(self, ctx, p, eta, o, units):
    np = lib.np
    s = lab.Stream(o["seed"], 40, p["d"])
    if o["op"] == "few":
      s.set_exposure(range(40), o["seed"] % 2)
    other = self.generator(o["gen"], p["d"]) if o["op"] == "truth" else None
    d = s.batch(range(40))

    def act():
      if o["op"] in ("fit", "few"):
        eta.fit(d)
      elif o["op"] == "reset":
        eta.reset()
      elif o["op"] == "truth":
        eta.set_to_truth(other)
      elif o["op"] == "score":
        eta.calculate_score(units())

    if o["op"] == "refused":
      if p["eta"] == "linbin":
        return False
      before = np.array(eta.calculate_score(units()), dtype=float)
      try:
        eta.set_to_truth(lib.example_scm.back_door_scm()[0])
      except ValueError:
        ctx.fault("foreign_generator")
      else:
        expect(False, "not-refused", "a generator that is not linear was "
               "accepted as truth")
      after = np.array(eta.calculate_score(units()), dtype=float)
      expect(np.array_equal(before, after, equal_nan=True), "refusal-changes",
             "a refused generator changed the scores")
      return False
    ctx.probe("history " + o["op"])
    if not o["line"]:
      act()
      return o["op"] == "few"   # keeps what was there
    exc = (core.InjectedAllocFailure if o["alloc"] else
           core.InjectedInterrupt)("line")
    with core.CrashAtLine(ctx, o["line"], exc) as cr:
      try:
        act()
      except core.INJECTED:
        ctx.fault("alloc_failure_at_line" if o["alloc"] else
                  "interrupt_at_line")
        ctx.sig("abort", cr.where)
    return True


# --------------------------------------------------------------------------


@register
class C34(Check):
  id = "C34"
  real = ["TabularCPD"]
  stub = ["observations", "thread schedule"]
  n = {"quick": 4000, "thorough": 80000}
  rule = ("one run = a table refitted on several samples (some fits refused or "
          "aborted at an arbitrary executed line, some observation buffers "
          "overwritten afterwards), each followed by a history of predictions "
          "for seen and unseen pairs, alone, in chunks, cut off or concurrent, "
          "of support queries and of printing; compared with a new table and "
          "with the counts; non-trivial = an earlier fit, a cut-off call or a "
          "preemption")

  def gen(self, rng, i, tier):
    fits = []
    for _ in range(rng.choice([1, 2, 3])):
      m = 12
      fits.append(dict(seed=rng.randrange(10**6), n=rng.choice([1, 5, 30, 80]),
                       nx=rng.choice([1, 2, 2, 3]), nz=rng.choice([1, 2, 3, 6]),
                       d=rng.choice([1, 2]), shift=rng.choice([0, 0, 1]),
                       skew=rng.choice([1, 1, 4]),
                       line=rng.choice([None, None, rng.randrange(1, 120)]),
                       refused=rng.random() < 0.15,
                       overwrite=rng.random() < 0.4,
                       show=rng.choice(["no", "str", "support"]),
                       calls=gen_calls(rng, m, 12, rng.choice([1, 2, 4]))))
    fits[-1]["line"] = None
    return dict(ratio=rng.choice([1.5, 2, 10, 20]), fits=fits)

  def valid(self, p):
    return p["ratio"] > 1 and bool(p["fits"]) and p["fits"][-1]["line"] is None and (
        all(f["n"] >= 1 and f["nx"] >= 1 and f["nz"] >= 1 and f["d"] in (1, 2)
            and f["skew"] >= 1 and valid_calls(f["calls"], 12)
            for f in p["fits"]))

  def sample(self, f):
    np = lib.np
    r = random.Random(f"table/{f['seed']}")
    x = [min(r.randrange(f["nx"]) * r.choice([0] * (f["skew"] - 1) + [1]),
             f["nx"] - 1) + f["shift"] for _ in range(f["n"])]
    z = [[float(r.randrange(f["nz"]) + f["shift"]) for _ in range(f["d"])]
         for _ in range(f["n"])]
    # queries: seen and unseen values
    q = [(r.randrange(f["nx"] + 1) + f["shift"],
          [float(r.randrange(f["nz"] + 1) + f["shift"]) for _ in range(f["d"])])
         for _ in range(12)]
    return (np.array(x, dtype=int), np.array(z).reshape(f["n"], f["d"]),
            np.array([a for a, _ in q], dtype=int), np.array([b for _, b in q]))

  def run(self, ctx, p):
    np = lib.np
    table = lib.data.TabularCPD(p["ratio"])
    for k, f in enumerate(p["fits"]):
      x, z, qx, qz = self.sample(f)
      bx, bz = x.copy(), z.copy()
      if f["refused"] and k:
        self.refused(ctx, table, bx, bz, qx, qz)
      if f["line"]:
        with core.CrashAtLine(ctx, f["line"]) as cr:
          try:
            table.fit(bx, bz)
          except core.INJECTED:
            ctx.fault("interrupt_at_line")
        if cr.fired:
          ctx.nontrivial = True
          continue      # between two fits: only the next full one counts
      else:
        table.fit(bx, bz)
      ctx.tick()
      ctx.nontrivial = ctx.nontrivial or k > 0
      expect(np.array_equal(bx, x) and np.array_equal(bz, z), "input-modified",
             "fitting modified the observations")
      fresh = lib.data.TabularCPD(p["ratio"])
      fresh.fit(x.copy(), z.copy())
      perm = list(range(f["n"]))
      random.Random(f["seed"]).shuffle(perm)
      mixed = lib.data.TabularCPD(p["ratio"])
      mixed.fit(x[perm], z[perm])
      if f["overwrite"]:
        bx[...] = 9
        bz[...] = 9
        ctx.fault("buffer_overwrite")
      ref = np.array([float(fresh.predict(qx[j:j + 1], qz[j:j + 1])[0])
                      for j in range(12)])
      other = np.array(mixed.predict(qx, qz), dtype=float)
      expect(bool(np.all(np.abs(ref - other) <= 1e-9)), "order-matters",
             lambda: f"the same observations in another order give {other} "
             f"instead of {ref}")
      self.counts(p, f, x, z, qx, qz, ref)
      self.rows(p, table, x, z)
      pure = Pure(ctx, "P(z|x)", lambda ids: (qx[ids], qz[ids]),
                  lambda a: table.predict(*a), ref,
                  lambda a: tuple(v.tobytes() for v in a),
                  lambda a, ids: (a[0].__setitem__(..., qx[ids]),
                                  a[1].__setitem__(..., qz[ids])), tol=1e-9)
      pure.plain(list(range(12)), "after the fit")
      pure.run(f["calls"])
      if f["show"] == "str":
        a, b = str(table), str(fresh)
        expect(sorted(a.split("\n")) == sorted(b.split("\n")), "print-differs",
               lambda: f"after predictions the table prints as\n{a}\nand a new "
               f"one as\n{b}")
        pure.plain(list(range(12)), "after printing")
      for name, want in (("x_support", {int(v) for v in x}),
                         ("z_support", {tuple(v) for v in z})):
        got = getattr(table, name)()
        got = {int(v) for v in got} if name[0] == "x" else {
            tuple(v) for v in got}
        expect(got == want, "support",
               lambda: f"{name} {sorted(got)}, observed {sorted(want)}")
      expect(table.support_size() == len({tuple(v) for v in z}), "support",
             "support size")
      ctx.sig("fit", f["n"], f["nx"], f["nz"], len(set(map(tuple, z))))

  def refused(self, ctx, table, x, z, qx, qz):
    np = lib.np
    if not table.n_units:
      return
    before = np.array(table.predict(qx, qz)) if z.shape[1] == qz.shape[1] else 0
    try:
      table.fit(x, z[:-1])
    except ValueError:
      ctx.fault("refused_fit")
    else:
      expect(False, "not-refused", "observations of unequal lengths accepted")
    after = np.array(table.predict(qx, qz)) if z.shape[1] == qz.shape[1] else 0
    expect(np.array_equal(before, after), "refusal-changes",
           "a refused fit changed the table")

  def rows(self, p, table, x, z):
    """Every row is a distribution that is bounded away from zero."""
    np = lib.np
    sup = np.array(sorted({tuple(v) for v in z}))
    low = 1 / len(sup) / p["ratio"]
    for a in sorted(set(x.tolist())):
      got = np.array(table.predict(np.full(len(sup), a, dtype=x.dtype), sup),
                     dtype=float)
      expect(abs(got.sum() - 1) < 1e-9, "not-normalised",
             lambda: f"P(.|{a}) = {got} sums to {got.sum()}")
      expect(bool(np.all(got >= low - 1e-12)), "below-the-minimum",
             lambda: f"P(.|{a}) = {got}, at least {low} was promised")
      freq = np.array([np.mean((z[x == a] == v).all(axis=1)) for v in sup])
      rise = np.diff(got[np.argsort(freq, kind="stable")])
      expect(bool(np.all(rise >= -1e-9)), "order-reversed",
             lambda: f"P(.|{a}) = {got} for relative frequencies {freq}")

  def counts(self, p, f, x, z, qx, qz, ref):
    """Where nothing is cut off, probabilities are relative frequencies."""
    sup = {tuple(v) for v in z}
    low = 1 / len(sup) / p["ratio"]
    for a, b, got in zip(qx, qz, ref):
      rows = [tuple(v) for u, v in zip(x, z) if u == a]
      if not rows:
        continue
      freq = {s: rows.count(s) / len(rows) for s in sup}
      if min(freq.values()) < low or max(freq.values()) > 1 - low:
        continue
      want = freq.get(tuple(b))
      if want is not None:
        expect(abs(got - want) <= 1e-9, "not-the-frequency",
               lambda: f"P({b}|{a}) = {got}, relative frequency {want}")


# --------------------------------------------------------------------------


@register
class C35(Check):
  id = "C35"
  real = ["get_identity_fn, get_remove_coordinates_fn, "
          "get_coordinate_mask_fn, ExpData"]
  stub = ["unit streams", "thread schedule"]
  n = {"quick": 3500, "thorough": 80000}
  rule = ("one run = one transformer applied by several users to streams of "
          "different widths, in chunks, repeatedly, cut off at arbitrary lines "
          "or concurrently; every output is compared with the columns it is "
          "documented to keep; non-trivial = a call was cut off or preempted")

  def gen(self, rng, i, tier):
    m = rng.choice([3, 8, 16])
    d = rng.choice([2, 3, 4, 5])
    kind = rng.choice(["identity", "remove", "mask", "mask"])
    cols = None
    if kind == "remove":
      cols = rng.randrange(d)
    elif kind == "mask":
      cols = sorted(rng.sample(range(d), rng.randrange(1, d + 1)))
      if rng.random() < 0.4:
        rng.shuffle(cols)
    return dict(kind=kind, cols=cols, as_array=rng.random() < 0.3, m=m, d=d,
                extra=rng.choice([0, 0, 1, 3]), seed=rng.randrange(10**6),
                types=rng.choice([None, "float32", "int64"]),
                ops=gen_calls(rng, m, 8), ops2=gen_calls(rng, m, 8, 2))

  def valid(self, p):
    d, c = p["d"], p["cols"]
    if p["kind"] == "remove" and not 0 <= c < d:
      return False
    if p["kind"] == "mask" and not (c and all(0 <= j < d for j in c) and
                                    len(set(c)) == len(c)):
      return False
    return d >= 2 and p["m"] >= 1 and p["kind"] in (
        "identity", "remove", "mask") and valid_calls(
            p["ops"] + p["ops2"], p["m"])

  def run(self, ctx, p):
    np = lib.np
    dt = lib.data
    if p["kind"] == "identity":
      fn = dt.get_identity_fn()
    elif p["kind"] == "remove":
      fn = dt.get_remove_coordinates_fn(p["cols"])
    else:
      fn = dt.get_coordinate_mask_fn(np.array(p["cols"]) if p["as_array"] else
                                     list(p["cols"]))
    users = []
    for k, width in enumerate((p["d"], p["d"] + p["extra"])):
      s = lab.Stream(p["seed"] + k, p["m"], width)
      if p["types"] == "int64":
        s.cov = np.rint(s.cov * 10)
      elif p["types"] == "float32":
        s.cov = s.cov.astype("float32").astype(float)
      keep = list(range(width))
      if p["kind"] == "remove":
        keep.remove(p["cols"])
      elif p["kind"] == "mask":
        keep = p["cols"]
      ref = np.column_stack([s.cov[:, keep], s.exp, s.rsp])

      def call(d, n_keep=len(keep)):
        out = fn(d)
        expect(len(out) == len(d) and out.n_units == len(d) and
               out.n_features == n_keep, "shape",
               lambda: f"{p['kind']} {p['cols']} gives {out.n_units} units and "
               f"{out.n_features} covariates")
        return np.column_stack([out.cov, out.exp, out.rsp])

      def refill(d, ids, s=s):
        d.cov[...] = s.cov[ids]
        d.exp[...] = s.exp[ids]
        d.rsp[...] = s.rsp[ids]

      users.append(Pure(ctx, "the transformed unit",
                        lambda ids, s=s: s.batch(ids, cov_dtype=p["types"]),
                        call, ref, keep_data, refill, tol=0))
    users[0].plain(list(range(p["m"])), "first")
    users[0].run(p["ops"])
    users[1].run(p["ops2"])
    users[0].plain(list(range(p["m"])), "at the end")
    ctx.ev(p["kind"], p["cols"])


# --------------------------------------------------------------------------


@register
class C36(Check):
  id = "C36"
  real = ["generate_random_nd_function", "scikit-learn Gaussian processes"]
  stub = ["points", "thread schedule", "ambient random numbers"]
  n = {"quick": 400, "thorough": 6000}
  rule = ("one run = a random function built from a seed, evaluated on chunks "
          "of points, repeatedly, concurrently, cut off at arbitrary lines, "
          "beside other functions and with the global generator disturbed; "
          "compared with a second one built from the same seed, possibly while "
          "a third is built concurrently or after a construction that was cut "
          "off; non-trivial = a call was cut off or preempted")

  def gen(self, rng, i, tier):
    dim = rng.choice([1, 1, 2])
    m = rng.choice([4, 10])
    return dict(dim=dim, out=rng.choice([1, 1, 2, 3]),
                points=rng.choice([3, 5, 8]) if dim == 1 else rng.choice([3, 4]),
                seed=rng.choice([None, 0, 1, rng.randrange(10**4),
                                 rng.randrange(10**4)]),
                far=rng.random() < 0.4,
                np_seed=rng.randrange(10**6), lo=rng.choice([-1, -3, 0]),
                hi=rng.choice([1, 4]), kernel=rng.choice(["none", "rbf"]),
                m=m, units=rng.randrange(10**6),
                cut=rng.choice([None, rng.randrange(1, 40)]),
                gaps=gen_gaps(rng) if rng.random() < 0.5 else None,
                flat=rng.random() < 0.3, ops=gen_calls(rng, m, 8))

  def valid(self, p):
    return p["dim"] in (1, 2) and p["out"] >= 1 and p["points"] >= 2 and (
        p["lo"] < p["hi"]) and valid_calls(p["ops"], p["m"])

  def build(self, p, seed):
    from sklearn import gaussian_process  # pylint: disable=g-import-not-at-top
    kern = None
    if p["kernel"] == "rbf":
      kern = gaussian_process.kernels.RBF(1.0)
    return lib.nonlinear_utils.generate_random_nd_function(
        p["dim"], p["out"], kernel=kern, min_x=p["lo"], max_x=p["hi"],
        n_points=p["points"], seed=seed)

  def run(self, ctx, p):
    np = lib.np
    r = random.Random(f"points/{p['units']}")
    x = np.array([[r.uniform(p["lo"], p["hi"]) for _ in range(p["dim"])]
                  for _ in range(p["m"])])
    if p["far"]:   # outside the grid
      x = x * np.array([r.choice([1, 1, 3]) for _ in range(p["m"])])[:, None]
    np.random.seed(p["np_seed"])
    f = self.build(p, p["seed"])
    ctx.tick()
    if p["cut"]:   # a construction that is cut off
      with core.CrashAtLine(ctx, p["cut"]):
        try:
          self.build(p, 3)
        except core.INJECTED:
          ctx.fault("interrupt_at_line")
          ctx.nontrivial = True
    if p["gaps"]:
      sched = core.Scheduler(ctx, p["gaps"])
      sched.spawn(lambda: self.build(p, p["seed"]), p["np_seed"])
      sched.spawn(lambda: self.build(p, 17), 5)
      tasks = sched.run()
      for t in tasks:
        if t.exc is not None:
          raise t.exc
      g = tasks[0].res
      if sched.switches:
        ctx.nontrivial = True
    else:
      np.random.seed(p["np_seed"] if p["seed"] is None else 99)
      g = self.build(p, p["seed"])
    ref = np.array(g(x.copy()), dtype=float)
    expect(ref.shape == (p["m"], p["out"]), "shape",
           lambda: f"{p['m']} points in {p['dim']} dimensions give an array of "
           f"shape {ref.shape}, {p['out']} outputs were asked for")
    expect(bool(np.all(np.isfinite(ref))), "not-finite", "values not finite")
    ctx.ev("f", repr(np.round(ref.ravel()[:4], 6)))

    def make(ids):
      a = x[ids]
      return a[:, 0].copy() if p["flat"] and p["dim"] == 1 else a

    def refill(a, ids):
      a[...] = make(ids)

    pure = Pure(ctx, "the function value", make, f, ref, lambda a: a.tobytes(),
                refill, tol=1e-6)
    pure.plain(list(range(p["m"])), "built again from the same seed")
    np.random.seed(r.randrange(1000))
    pure.run(p["ops"])
    np.random.seed(5)
    s0 = np.random.get_state()[1].tobytes()
    f(x.copy())
    if p["seed"] is not None:
      self.build(p, p["seed"])
      expect(np.random.get_state()[1].tobytes() == s0 and
             np.random.get_state()[2] == np.random.RandomState(5).get_state()[2],
             "consumes-randomness", "a function with a seed of its own drew "
             "from the global generator")
    ctx.sig(p["dim"], p["out"], p["seed"] is None, p["kernel"])


# --------------------------------------------------------------------------


@register
class C37(Check):
  id = "C37"
  real = ["calculate_cs_width of AIPW and FrontDoorLinearFiniteZ, TabularCPD"]
  stub = ["unit streams", "thread schedule"]
  n = {"quick": 2000, "thorough": 80000}
  rule = ("one run = a nuisance parameter with a history of fits, insufficient "
          "and aborted fits, resets and scorings, then fitted on sufficient "
          "data; its width is asked for at several levels and constants, "
          "repeatedly, cut off, after scoring and concurrently, and compared "
          "with the published formula of the most recent data; non-trivial = "
          "an earlier fit, a cut-off call or a preemption")

  def gen(self, rng, i, tier):
    eta = rng.choice(lab.WIDTHS + ("front", "aipw"))
    ops = [dict(op=rng.choice(["fit", "fit", "few", "reset"]),
                seed=rng.randrange(10**6), n=rng.choice([20, 40, 90]),
                like=rng.random() < 0.3, asked=rng.random() < 0.5,
                line=rng.choice([None, None, rng.randrange(1, 40)]))
           for _ in range(rng.choice([0, 1, 1, 2]))]
    asks = []
    for _ in range(rng.choice([2, 4, 6])):
      asks.append(dict(
          delta=rng.choice([0.001, 0.05, 0.1, 0.5, 0.9]),
          sub_g=rng.choice([0.25, 1, 1, 3]), rho=rng.choice([0.01, 0.1, 1, 4]),
          how=rng.choice(["plain", "plain", "twice", "cut", "scored", "conc"]),
          line=rng.randrange(1, 22), gaps=gen_gaps(rng, 8, 12)))
    return dict(eta=eta, d=rng.choice([1, 2, 3]), min_units=rng.choice([2, 5]),
                overlap=rng.choice([0.05, 0.1, 0.25, 0.4]),
                opts=lab.gen_opts(rng, eta), ops=ops, asks=asks,
                seed=rng.randrange(10**6), n=rng.choice([20, 60, 200]),
                scale=rng.choice([1.0, 1.0, 0.05, 10.0]),
                collinear=rng.choice([None, None, None, "dup", "zero"]))

  def valid(self, p):
    return p["eta"] in lab.WIDTHS and p["d"] in (1, 2, 3) and p["n"] >= 20 and (
        p["min_units"] >= 2) and p["scale"] > 0 and 0 < p["overlap"] < 0.5 and (
            all(0 < a["delta"] < 1 and a["sub_g"] > 0 and a["rho"] > 0
                for a in p["asks"])) and all(o["n"] >= 20 for o in p["ops"])

  def stream(self, p, seed, n, collinear=None):
    kind = "finite" if p["eta"] == "front" else "cont"
    return lab.Stream(seed, n, p["d"], kind,
                      scale=1.0 if kind == "finite" else p["scale"],
                      collinear=collinear)

  def run(self, ctx, p):
    np = lib.np
    eta = lab.make_eta(p["eta"], p["d"], p["min_units"], p["overlap"], p["opts"])
    for o in p["ops"]:
      n = o["n"]
      s = self.stream(p, o["seed"], n)
      if o["like"]:   # almost the final data
        n = p["n"]
        s = self.stream(p, p["seed"], n, p["collinear"])
        s.cov[1 + o["seed"] % 5::7] *= -3.0
        ctx.probe("almost the final data")
      if o["op"] == "few":
        s.set_exposure(range(n), 1)
        ctx.fault("insufficient_data")
      d = s.batch(range(n))
      act = eta.reset if o["op"] == "reset" else lambda d=d: eta.fit(d)
      ctx.nontrivial = True
      if o["line"]:
        with core.CrashAtLine(ctx, o["line"]):
          try:
            act()
          except core.INJECTED:
            ctx.fault("interrupt_at_line")
      else:
        act()
      if o["asked"] and eta.has_enough_samples() and not o["line"]:
        eta.calculate_cs_width(0.05, sub_g=1, rho=.1)
    s = self.stream(p, p["seed"], p["n"], p["collinear"])
    if not lab.sufficient(p["eta"], p["min_units"], list(s.exp)):
      return
    d = s.batch(range(p["n"]))
    eta.fit(d)
    kept = keep_data(d)
    for a in p["asks"]:
      self.ask(ctx, p, eta, s, a)
    expect(keep_data(d) == kept, "input-modified", "a width modified the data")
    self.monotone(ctx, p, eta, s)
    ctx.sig(p["eta"], p["n"], p["d"], [(o["op"], bool(o["line"]))
                                       for o in p["ops"]])

  def ref(self, p, s, a):
    spec = dict(eta=p["eta"], rho=a["rho"], eta_sub_g=a["sub_g"],
                overlap=p["overlap"])
    return ref_width(spec, s.cov, s.exp, a["delta"])

  def ask(self, ctx, p, eta, s, a):
    want, cond = self.ref(p, s, a)
    go = lambda: float(eta.calculate_cs_width(a["delta"], sub_g=a["sub_g"],
                                              rho=a["rho"]))

    def judge(got, how):
      ctx.tick()
      ctx.ev("width", how, repr(round(got, 9)))
      if cond < 1e-9:   # no information in some direction
        expect(got > 1e3, "width",
               lambda: f"{p['eta']}: width {got} of data without information "
               "in some direction")
        return
      expect(lab.same_num(got, want, 1e-6 + 1e-14 / cond), "width",
             lambda: f"{p['eta']}, {how}: width {got} at {a}, the formula "
             f"gives {want}")

    how = a["how"]
    if how == "cut":
      with core.CrashAtLine(ctx, a["line"]) as cr:
        try:
          go()
        except core.INJECTED:
          ctx.fault("interrupt_at_line")
          ctx.sig("cut", cr.where)
          ctx.nontrivial = True
    elif how == "scored":
      eta.calculate_score(s.batch(range(0, p["n"], 3)))
    elif how == "twice":
      judge(go(), "once")
    elif how == "conc":
      sched = core.Scheduler(ctx, a["gaps"])
      sched.spawn(go, 1)
      sched.spawn(lambda: eta.calculate_cs_width(0.2, sub_g=2, rho=.7), 2)
      tasks = sched.run()
      for t in tasks:
        if t.exc is not None:
          raise t.exc
      judge(tasks[0].res, "concurrently")
      if sched.switches:
        ctx.nontrivial = True
        ctx.probe("preemptions", sched.switches)
    judge(go(), how)
    ctx.probe("asked " + how)

  def monotone(self, ctx, p, eta, s):
    last = None
    for delta in (0.5, 0.1, 0.02, 0.001):
      w = float(eta.calculate_cs_width(delta, sub_g=1, rho=.1))
      if last is not None:
        expect(w >= last * (1 - 1e-9), "not-monotone",
               lambda: f"{p['eta']}: width {w} at level {delta}, {last} at a "
               "larger one")
      last = w

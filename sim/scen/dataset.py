"""Datasets: folds and subsamples (C21), append (C22), linear generator (C25)."""
import math
import random

from sim import core
from sim.core import Violation, expect, lib
from sim.registry import Check, register


def make_data(first, n, d, exp, rsp, dtype="float64"):
  """n units from `first` on; every cell is a function of the unit id."""
  np = lib.np
  ids = np.arange(first, first + n)
  if d == 0:        # one-dimensional covariates
    cov = (ids * 2).astype(dtype)
  else:
    cov = np.array([[i * 2 + 1000 * k for k in range(d)] for i in ids],
                   dtype=dtype).reshape(n, d)
  return lib.data.ExpData(cov, ids % 7 if exp else None,
                          ids * 3.0 if rsp else None)


def read(d, dim, exp, rsp, what):
  """Unit ids held by d; every row must be intact."""
  np = lib.np
  n = len(d)
  cov = np.asarray(d.cov)
  expect(cov.shape == ((n,) if dim == 0 else (n, dim)), "torn-rows",
         lambda: f"{what}: covariates of shape {cov.shape}, {n} units")
  expect((d.exp is not None) == exp and (d.rsp is not None) == rsp,
         "absent-column", lambda: f"{what}: exposure {d.exp is not None}, "
         f"response {d.rsp is not None}; expected {exp}, {rsp}")
  first = cov if dim == 0 else cov[:, 0]
  ids = [int(round(float(x))) // 2 for x in first]
  for k, i in enumerate(ids):
    row = [cov[k]] if dim == 0 else list(cov[k])
    ok = all(float(x) == i * 2 + 1000 * j for j, x in enumerate(row))
    ok = ok and (not exp or (len(d.exp) == n and d.exp[k] == i % 7))
    ok = ok and (not rsp or (len(d.rsp) == n and d.rsp[k] == 3.0 * i))
    expect(ok, "torn-rows", lambda: f"{what}: row {k} mixes cells of units")
  expect(d.n_units == n and d.n_features == max(dim, 1), "torn-rows",
         lambda: f"{what}: n_units {d.n_units}, n_features {d.n_features}")
  return ids


class Outcomes:
  """The random outcomes of a run: NumPy's, or extreme legal ones."""

  def __init__(self, ctx, style):
    self.ctx = ctx
    self.style = style

  def __enter__(self):
    np = lib.np
    self.saved = (np.random.permutation, np.random.choice)
    if self.style == "numpy":
      return self
    ctx, style = self.ctx, self.style

    def permutation(x):
      a = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
      ctx.fault("extreme_random_outcome")
      if style == "reverse":
        return a[::-1].copy()
      if style == "sort":
        return np.sort(a, axis=0)
      return a

    orig = np.random.choice

    def choice(a, size=None, replace=True, p=None):
      r = orig(a, size=size, replace=replace, p=p)
      seq = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
      if not replace or size is None:
        return r
      ok = [k for k in range(len(seq)) if p is None or p[k] > 0]
      pick = ok[0] if style == "sort" else ok[-1]
      ctx.fault("extreme_random_outcome")
      if style == "reverse":      # alternate
        return np.array([seq[ok[i % len(ok)]] for i in range(r.size)],
                        dtype=seq.dtype).reshape(r.shape)
      return np.full(r.shape, seq[pick], dtype=seq.dtype)

    np.random.permutation, np.random.choice = permutation, choice
    return self

  def __exit__(self, *a):
    lib.np.random.permutation, lib.np.random.choice = self.saved
    return False


@register
class C21(Check):
  id = "C21"
  n = {"quick": 12000, "thorough": 1000000}
  real = ["ExpData.k_fold, ExpData.subsample, slicing"]
  stub = ["in some runs NumPy's permutation and choice return extreme legal "
          "outcomes"]
  rule = ("one run = a dataset of 0-40 tagged units and a chain of folds, "
          "subsamples and slices under seeded or extreme random outcomes, some "
          "interrupted at an executed line; non-trivial = an operation "
          "succeeded on at least two units")

  def gen(self, rng, i, tier):
    ops = []
    for _ in range(rng.randrange(1, 6)):
      k = rng.choice(["k", "k", "k", "s", "s", "slice"])
      if k == "k":
        x = rng.choice([1, 2, 2, 3, 5, 10, rng.randrange(1, 60)])
      elif k == "s":
        x = rng.choice([0, 1, 0.5, 1 / 3, 0.1, round(rng.random(), 3), 1.0, 0.0])
      else:
        x = [rng.randrange(0, 5), rng.randrange(0, 40)]
      ops.append([k, x, rng.randrange(10), rng.choice(
          [None, None, None, rng.randrange(1, 14)])])
    return dict(n=rng.choice([0, 1, 2, 3, 4, 5, 10, rng.randrange(0, 41)]),
                d=rng.choice([0, 1, 1, 2, 3]), exp=rng.random() < 0.7,
                rsp=rng.random() < 0.7, ops=ops,
                dtype=rng.choice(["float64", "float64", "int64", "float32"]),
                style=rng.choice(["numpy", "numpy", "numpy", "reverse", "sort",
                                  "identity"]))

  def valid(self, p):
    ok = p["n"] >= 0 and p["d"] in (0, 1, 2, 3) and p["dtype"] in (
        "float64", "int64", "float32") and p["style"] in (
            "numpy", "reverse", "sort", "identity")
    for k, x, pick, line in p["ops"]:
      ok = ok and (line is None or line >= 1) and pick >= 0
      if k == "k":
        ok = ok and isinstance(x, int) and x >= 1
      elif k == "s":
        ok = ok and not isinstance(x, list) and 0 <= x <= 1
      else:
        ok = ok and isinstance(x, list) and len(x) == 2 and min(x) >= 0
    return ok

  def run(self, ctx, p):
    d = make_data(5, p["n"], p["d"], p["exp"], p["rsp"], p["dtype"])
    rd = lambda x, what: read(x, p["d"], p["exp"], p["rsp"], what)
    for k, x, pick, line in p["ops"]:
      ids = rd(d, "source")
      ctx.tick()
      parts = None
      try:
        with Outcomes(ctx, p["style"]):
          if line is not None:
            with core.CrashAtLine(ctx, line):
              parts = self.do(d, k, x)
          else:
            parts = self.do(d, k, x)
      except core.InjectedInterrupt:
        ctx.fault("interrupt_at_line")
      expect(rd(d, "source after the operation") == ids, "source-changed",
             lambda: f"{k}({x}) changed the source")
      if parts is None:
        continue
      got = [rd(q, f"part {j} of {k}({x})") for j, q in enumerate(parts)]
      ctx.ev(k, x, len(ids), [len(g) for g in got], got)
      ctx.sig(k, str(x), tuple(map(tuple, got)))
      if k == "slice":
        want = ids[x[0]:x[1]]
        expect(got[0] == want, "slice", lambda: f"{got[0]}, expected {want}")
        d = parts[0]
        continue
      if len(ids) > 1:
        ctx.nontrivial = True
      pos = {i: n for n, i in enumerate(ids)}
      flat = [i for g in got for i in g]
      expect(sorted(flat, key=lambda i: pos.get(i, -1)) == ids, "not-a-partition",
             lambda: f"{k}({x}) of {len(ids)} units puts {len(flat)} units into "
             f"the parts ({len(set(flat))} different ones)")
      for g in got:
        expect([pos[i] for i in g] == sorted(pos[i] for i in g), "order",
               lambda: f"{k}({x}): a part holds its units out of order")
      sizes = [len(g) for g in got]
      if k == "k":
        expect(len(got) == x, "fold-count", lambda: f"{len(got)} folds, k={x}")
        expect(max(sizes) - min(sizes) <= 1, "unbalanced",
               lambda: f"{len(ids)} units in folds of {sizes}")
      else:
        expect(len(got) == 2, "fold-count", f"{len(got)} parts")
        if x in (0, 1):
          expect(sizes[1 - int(x)] == len(ids), "proportion",
                 lambda: f"proportion {x}: sizes {sizes}")
        ctx.probe("subsample")
      if len(ids) < x and k == "k":
        ctx.probe("more folds than units")
      d = parts[pick % len(parts)]

  def do(self, d, k, x):
    if k == "k":
      return list(d.k_fold(x))
    if k == "s":
      return list(d.subsample(x))
    return [d[x[0]:x[1]]]


# --------------------------------------------------------------------------


@register
class C22(Check):
  id = "C22"
  n = {"quick": 8000, "thorough": 600000}
  real = ["ExpData.append"]
  stub = ["failing NumPy array allocations"]
  rule = ("one run = a dataset and a sequence of appends, compatible or not, "
          "some under an allocation failure at the n-th array-building call; "
          "non-trivial = at least one append failed after the dataset held "
          "units and one succeeded")

  def gen(self, rng, i, tier):
    ops = []
    for _ in range(rng.randrange(1, 9)):
      ops.append(dict(n=rng.choice([0, 1, 2, 5, rng.randrange(0, 12)]),
                      bad=rng.choice([None, None, "features", "exp", "rsp",
                                      "both", "more", "dim"]),
                      alloc=rng.choice([None, None, 1, 2, 3]),
                      self_=rng.random() < 0.05))
    return dict(n=rng.choice([0, 1, 3, 8]), d=rng.choice([0, 1, 2, 3]),
                exp=rng.random() < 0.75, rsp=rng.random() < 0.75, ops=ops,
                dtype=rng.choice(["float64", "int64", "float32"]))

  def valid(self, p):
    return p["n"] >= 0 and p["d"] in (0, 1, 2, 3) and p["dtype"] in (
        "float64", "int64", "float32") and all(
            o["n"] >= 0 and (o["alloc"] is None or o["alloc"] >= 1)
            for o in p["ops"])

  def run(self, ctx, p):
    np = lib.np
    d = make_data(0, p["n"], p["d"], p["exp"], p["rsp"], p["dtype"])
    rd = lambda x, what: read(x, p["d"], p["exp"], p["rsp"], what)
    ids = list(range(p["n"]))
    nxt = 100
    failed = done = False
    for o in p["ops"]:
      dim, exp, rsp = p["d"], True, True
      if o["bad"] == "features":
        dim = max(dim, 1) + 1
      if o["bad"] in ("exp", "both"):
        exp = False
      if o["bad"] in ("rsp", "both"):
        rsp = False
      if o["bad"] == "dim" and dim < 2:
        dim = 1 - dim       # (n,) and (n, 1) do not concatenate
      new = make_data(nxt, o["n"], dim, exp, rsp)
      if o["self_"]:
        new = d
      keep = make_data(nxt, o["n"], dim, exp, rsp)
      bad = not o["self_"] and (o["bad"] == "features" or
                                (p["exp"] and not exp) or (p["rsp"] and not rsp))
      before = (d.cov, d.exp, d.rsp)
      exc = None
      ctx.tick()
      try:
        if o["alloc"]:
          with core.AllocFaults(ctx, o["alloc"]):
            d.append(new)
        else:
          d.append(new)
      except core.InjectedAllocFailure as e:
        exc = e
      except ValueError as e:
        if not core.in_repo(e.__traceback__):
          raise
        exc = e
        ctx.fault("incompatible_batch")
      ctx.ev("append", o["n"], o["bad"], type(exc).__name__, len(d))
      ctx.sig(o["n"], o["bad"], type(exc).__name__, p["exp"], p["rsp"], p["d"])
      got = None
      try:
        got = rd(d, "dataset")
      except Violation as e:
        raise Violation("torn-append", f"after an append that "
                        f"{'failed' if exc else 'succeeded'}: {e.msg}") from None
      if exc is not None:
        failed = failed or bool(ids)
        expect(got == ids, "partial-append",
               lambda: f"a failed append ({exc!r}) left units {got}, there were "
               f"{ids}")
        expect(all(a is b or np.array_equal(a, b) for a, b in
                   zip(before, (d.cov, d.exp, d.rsp))), "partial-append",
               "a failed append changed values")
        if isinstance(exc, ValueError):
          expect(bad or o["bad"] == "dim", "rejected",
                 lambda: f"a compatible batch was rejected: {exc}")
      else:
        expect(not bad, "accepted",
               lambda: f"an incompatible batch ({o['bad']}) was accepted")
        add = list(ids) if o["self_"] else list(range(nxt, nxt + o["n"]))
        expect(got == ids + add, "append",
               lambda: f"units {got}, expected {ids + add}")
        ids = got
        done = True
      if not o["self_"]:
        expect(np.array_equal(new.cov, keep.cov) and len(new) == o["n"] and
               (new.exp is None) == (not exp) and
               (not exp or np.array_equal(new.exp, keep.exp)) and
               (not rsp or np.array_equal(new.rsp, keep.rsp)), "input-modified",
               "append changed the appended dataset")
      nxt += 50
    ctx.nontrivial = failed and done


# --------------------------------------------------------------------------


@register
class C25(Check):
  id = "C25"
  n = {"quick": 8000, "thorough": 600000}
  real = ["LinearDataGenerator"]
  stub = ["noise model (recorded; may fail, read short or long, reuse its "
          "buffer)"]
  rule = ("one run = a linear generator and a sequence of calls whose noise "
          "model succeeds, fails, returns short, long or scalar draws, or "
          "reuses its buffer; non-trivial = a faulty draw was followed by a "
          "good one")

  def gen(self, rng, i, tier):
    return dict(d=rng.choice([1, 2, 3, 5]), seed=rng.randrange(10**6),
                tau=rng.choice([0, 1.0, -2.5, 10]), gamma=rng.random() < 0.6,
                reuse=rng.random() < 0.4, aslist=rng.random() < 0.2,
                shared=rng.random() < 0.3, kind=core.fault_kind(rng),
                ops=[[rng.choice([0, 1, 2, 5, 17]) if rng.random() < 0.95
                      else rng.choice([130, 1100, 5000]),
                      rng.choice(["ok", "ok", "ok", "fail", "interrupt", "short",
                                  "long", "empty", "one", "scalar", "inf", "nan",
                                  "huge"]),
                      rng.choice([1, 1, 1, 2])]
                     for _ in range(rng.randrange(1, 8))])

  def valid(self, p):
    return p["d"] >= 1 and all(o[0] >= 0 and o[2] in (1, 2) and o[1] in (
        "ok", "fail", "interrupt", "short", "long", "empty", "one", "scalar",
        "inf", "nan", "huge") for o in p["ops"])

  def run(self, ctx, p):
    np = lib.np
    r = random.Random(f"noise/{p['seed']}")
    beta = np.array([r.uniform(-2, 2) for _ in range(p["d"])])
    gamma = np.array([r.uniform(-1, 1) for _ in range(p["d"])])
    st = dict(calls=[], mode="ok", at=1, buf=None, n=0)

    def noise(n):
      st["n"] += 1
      st["calls"].append(n)
      mode = st["mode"] if st["n"] >= st["at"] else "ok"
      m = int(n)
      if mode in ("fail", "interrupt"):
        st["exc"] = core.make_fault(
            p["kind"] if mode == "fail" else "interrupt", "noise")
        ctx.fault("noise_" + mode)
        raise st["exc"]
      if mode != "ok":
        ctx.fault("noise_" + mode)
      if mode == "scalar":
        return 0.5
      m = {"short": max(m - 1, 0), "long": m + 3, "empty": 0, "one": 1,
           }.get(mode, m)
      vals = [r.uniform(-1, 1) for _ in range(m)]
      odd = {"inf": [math.inf, -math.inf], "nan": [math.nan],
             "huge": [1e300, -1e200, 1e-300]}.get(mode, ())
      if m:
        for v in odd:
          vals[r.randrange(m)] = v
      st["vals"] = vals
      if p["reuse"]:
        if st["buf"] is None or len(st["buf"]) < m:
          st["buf"] = np.zeros(max(64, m))
        st["buf"][:m] = vals
        return st["buf"][:m]
      return list(vals) if p["aslist"] else np.array(vals)

    mk = lambda: lib.data.LinearDataGenerator(
        "linear", p["d"], beta, p["tau"], noise, gamma if p["gamma"] else None)
    g = mk()
    faulty = False
    for n, mode, at in p["ops"]:
      if p["shared"]:
        g2, g = g, mk()
        del g2
      st.update(calls=[], mode=mode, at=at, n=0, vals=None, exc=None)
      ctx.tick()
      exc = d = None
      try:
        d = g.generate(n)
      except core.INJECTED as e:
        exc = e
        expect(e is st["exc"], "exception-replaced", lambda: f"{e!r}")
      except (ValueError, TypeError) as e:
        if not core.in_repo(e.__traceback__):
          raise
        exc = e
      vals = st["vals"]
      calls = list(st["calls"])
      ctx.ev(n, mode, at, calls, type(exc).__name__)
      ctx.sig(n, mode, type(exc).__name__, p["d"])
      expect(len(calls) == 1 and calls[0] == n, "noise-calls",
             lambda: f"one call of generate({n}) asked the noise model for "
             f"{calls}")
      hit = at <= 1
      good = not hit or mode in ("ok", "inf", "nan", "huge") or (mode in ("short", "empty") and n == 0) or (
          mode == "one" and n == 1)
      if not good:
        faulty = True
        expect(exc is not None, "bad-draw-accepted",
               lambda: f"generate({n}) accepted a {mode} draw")
        continue
      expect(exc is None, "good-draw-rejected",
             lambda: f"generate({n}) failed: {exc!r}")
      if st["buf"] is not None:
        st["buf"][:] = 99.0     # the noise model reuses its buffer
        ctx.fault("buffer_overwritten")
      cov, t, y = np.asarray(d.cov), np.asarray(d.exp), np.asarray(d.rsp)
      expect(cov.shape == (n, p["d"]) and t.shape == (n,) and y.shape == (n,) and
             len(d) == n, "shape", lambda: f"{cov.shape} {t.shape} {y.shape}")
      expect(set(t.tolist()) <= {0, 1}, "exposure", "exposure not binary")
      want = cov.dot(beta) + p["tau"] * t + np.array(vals if n else [])
      expect(np.allclose(y, want, rtol=1e-9, atol=1e-9, equal_nan=True),
             "noise-not-used",
             lambda: f"generate({n}): responses differ from predictor plus "
             f"effect plus the noise drawn by {(y - want)[:4]}")
      if faulty:
        ctx.nontrivial = True

"""Executable reference models of the three algorithms (oracles over traces)."""
import math

from sim.core import Violation, expect

INF = math.inf


class Rounds:
  """The update trace of a completed run, cut into rounds by the reference."""

  def __init__(self, rec):
    self.rec = rec
    self.K = rec.K
    self.rounds = []  # list of lists of update events
    self.states = []  # after each round: list of scaled (l, u, v) per arm
    self.cands = []   # SE: survivors before each round
    self.after = None  # SE: survivors (certain, maybe) after the last round
    self.problem = None  # (cls, msg) when the trace does not follow the rule
    {"uniform": self._uniform, "lucb": self._lucb, "se": self._se}[rec.alg]()

  def _state(self, cur):
    out = []
    for c, t in zip(self.rec.costs, cur):
      l, u, v = t
      out.append((c * l, c * u, None if v is None else c * v))
    return out

  def _cut(self, size_of):
    ups = list(self.rec.ups)
    cur = [b[2] for b in self.rec.before]
    i = 0
    r = 0
    while i < len(ups):
      size = size_of(r)
      chunk = ups[i:i + size]
      i += size
      for u in chunk:
        cur[u[1]] = u[4]
      self.rounds.append(chunk)
      self.states.append(self._state(cur))
      if len(chunk) < size:
        self.problem = ("partial-round", f"round {r} updates {len(chunk)} arms "
                        f"instead of {size}")
      r += 1

  def _uniform(self):
    self._cut(lambda r: self.K)

  def _lucb(self):
    self._cut(lambda r: self.K if r == 0 else 2)

  def _se(self):
    ups = list(self.rec.ups)
    cur = [b[2] for b in self.rec.before]
    certain, maybe = list(range(self.K)), []
    i = 0
    while i < len(ups):
      chunk, seen = [], set()
      while i < len(ups) and ups[i][1] in certain + maybe and (
          ups[i][1] not in seen):
        seen.add(ups[i][1])
        chunk.append(ups[i])
        i += 1
      if not set(certain) <= seen or not chunk:
        nxt = ups[i][1] if i < len(ups) else None
        self.problem = (
            "survivors",
            f"round {len(self.rounds)} should update arms {certain} (optional "
            f"{maybe}) but updated {sorted(seen)}, next update {nxt}")
        return
      for u in chunk:
        cur[u[1]] = u[4]
      st = self._state(cur)
      self.rounds.append(chunk)
      self.cands.append(sorted(seen))
      self.states.append(st)
      certain, maybe = survivors(st, sorted(seen))
    self.after = (certain, maybe)

  def totals(self):
    t, out = 0, []
    for c in self.rounds:
      t += len(c) * self.rec.cfg["upr"]
      out.append(t)
    return out


def survivors(st, cands):
  low = min(st[i][2] for i in cands)
  thr = min(st[i][1] for i in cands if st[i][2] == low)
  certain = [i for i in cands if st[i][0] < thr]
  maybe = [i for i in cands if st[i][0] == thr]
  return certain, maybe


def argmin_set(vals):
  m = min(vals)
  return [i for i, v in enumerate(vals) if v == m]


def certificate(st, i, tol):
  """+1 certified, 0 undecidable within rounding, -1 not certified."""
  if any(math.isinf(s[1]) for s in st):
    return -1
  others = min(s[0] for j, s in enumerate(st) if j != i)
  a, b = st[i][1], others + tol
  if tol == 0:
    return 1 if a < b else -1
  eps = 1e-9 * (1 + abs(a) + abs(b))
  if abs(a - b) <= eps:
    return 0
  return 1 if a < b else -1


def certified_stop(st, tol):
  """Can/must the run stop here?  Returns (may, must)."""
  cs = [certificate(st, i, tol) for i in argmin_set([s[2] for s in st])]
  return any(c >= 0 for c in cs), all(c > 0 for c in cs)


# --------------------------------------------------------------------------
# Oracles.  Each takes a completed record (rec.result is set).


def _limit(rec):
  l = rec.cfg["limit"]
  return INF if l is None else l


def need_rounds(rec):
  rd = Rounds(rec)
  if rd.problem:
    raise Violation("trace:" + rd.problem[0], rd.problem[1])
  return rd


def oracle_budget(rec):
  """C01."""
  rd = Rounds(rec)
  limit = _limit(rec)
  # Totals as the property counts them: units allocated per round.
  totals, t = [], 0
  for x in rd.totals():
    totals.append(x)
  expect(totals, "no-round", "the run returned without updating any arm")
  for r, t in enumerate(totals[:-1]):
    expect(t <= limit, "round-after-budget",
           lambda: f"{rec.alg}: round {r + 1} was started with {t} samples "
           f"already used and a limit of {limit}")
  if totals[-1] <= limit and not rd.problem:
    expect(_stopped_by_certificate(rec, rd), "ended-below-budget",
           lambda: f"{rec.alg}: ended with {totals[-1]} of {limit} samples and "
           f"no certificate; state {rd.states[-1]}")


def _stopped_by_certificate(rec, rd):
  st = rd.states[-1]
  if rec.alg == "se":
    certain, maybe = rd.after
    return len(certain) <= 1 and len(certain) + len(maybe) >= 1
  if rec.alg == "lucb" and len(rd.rounds) < 2:
    return False
  return certified_stop(st, rec.cfg["tol"])[0]


def oracle_certified(rec):
  """C02."""
  rd = need_rounds(rec)
  limit = _limit(rec)
  total = rd.totals()[-1]
  st = rd.states[-1]
  tol = rec.cfg["tol"]
  best = rec.best()
  if rec.alg == "se":
    certain, maybe = rd.after
    if total <= limit:
      expect(len(best) == 1, "early-stop-many",
             lambda: f"se stopped at {total}<={limit} returning arms {best}")
      expect(best[0] in certain + maybe and len(certain) <= 1 and
             (not certain or best[0] == certain[0]), "uncertified-stop",
             lambda: f"se stopped at {total}<={limit} with arm {best} but the "
             f"survivors are {certain}+{maybe}")
    # promptness: once one survivor is left, no further round
    for r in range(len(rd.rounds) - 1):
      c, m = survivors(rd.states[r], rd.cands[r])
      expect(len(c) + len(m) > 1, "late-stop",
             lambda: f"se went on after round {r} with one survivor {c}")
    return
  if total <= limit:
    expect(len(best) == 1, "early-stop-many",
           lambda: f"{rec.alg} stopped at {total}<={limit} returning {best}")
    b = best[0]
    expect(b in argmin_set([s[2] for s in st]), "wrong-early-answer",
           lambda: f"{rec.alg} returned arm {b}, not the lowest estimate: {st}")
    expect(certificate(st, b, tol) >= 0, "uncertified-stop",
           lambda: f"{rec.alg} stopped with arm {b} but intervals do not "
           f"separate (tolerance {tol}): {st}")
  first = 1 if rec.alg == "lucb" else 0
  for r in range(first, len(rd.rounds) - 1):
    may, must = certified_stop(rd.states[r], tol)
    expect(not must, "late-stop",
           lambda: f"{rec.alg} went on after round {r} although certified: "
           f"{rd.states[r]} tolerance {tol}")


def oracle_pac(rec, truths):
  """C02: valid intervals imply a correct early answer."""
  rd = need_rounds(rec)
  if rd.totals()[-1] > _limit(rec):
    return
  tv = [c * t for c, t in zip(rec.costs, truths)]
  for b in rec.best():
    expect(tv[b] <= min(tv) + rec.cfg["tol"] + 1e-9, "pac",
           lambda: f"{rec.alg} returned arm {b} with true value {tv[b]}, the "
           f"best is {min(tv)}, tolerance {rec.cfg['tol']}, although every "
           "interval contained the truth")


def oracle_answer(rec):
  """C03."""
  rd = need_rounds(rec)
  best = rec.best()
  expect(len(best) > 0, "empty-answer", lambda: f"{rec.alg} returned no arm")
  expect(len(set(best)) == len(best), "duplicate-answer", lambda: f"{best}")
  st = rd.states[-1]
  total = rd.totals()[-1]
  if rec.alg == "se":
    certain, maybe = rd.after
    expect(set(best) <= set(certain + maybe), "eliminated-arm-returned",
           lambda: f"se returned {best}; survivors are {certain}+{maybe}; {st}")
    if total > _limit(rec):
      if len(certain) + len(maybe) == 1:
        ok = best == certain + maybe
      else:
        ok = False
        # at equality either survivor set is allowed
        from itertools import chain, combinations
        for extra in chain.from_iterable(
            combinations(maybe, n) for n in range(len(maybe) + 1)):
          s = sorted(certain + list(extra))
          if s:
            low = min(st[i][2] for i in s)
            if sorted(best) == [i for i in s if st[i][2] == low] or (
                len(s) == 1 and best == s):
              ok = True
      expect(ok, "wrong-exhaustion-answer",
             lambda: f"se returned {best}; survivors {certain}+{maybe}; {st}")
    return
  if total > _limit(rec):
    want = argmin_set([s[2] for s in st])
    if sorted(best) != want:
      may, _ = certified_stop(st, rec.cfg["tol"])
      expect(may and len(best) == 1 and best[0] in want and
             certificate(st, best[0], rec.cfg["tol"]) >= 0 and
             (rec.alg != "lucb" or len(rd.rounds) > 1),
             "wrong-exhaustion-answer",
             lambda: f"{rec.alg} returned {best}, lowest estimates are {want}: "
             f"{st}")


def oracle_accounting(rec, full_batches):
  """C04."""
  r = rec.result
  upr = rec.cfg["upr"]
  n_rounds = len(r.cum_samples)
  tab = [list(r.samples_by_arm[a]) for a in rec.arm_objs]
  for name in ("lcb_by_arm", "ucb_by_arm", "var_est_by_arm", "samples_by_arm"):
    m = getattr(r, name)
    expect(len(m) == rec.K, "history-shape", lambda: f"{name} has {len(m)} arms")
    for i, a in enumerate(rec.arm_objs):
      expect(len(m[a]) == n_rounds, "history-shape",
             lambda: f"{rec.alg}: {name} of arm {i} has {len(m[a])} entries for "
             f"{n_rounds} rounds")
  ups = list(rec.ups)
  i = 0
  prev = 0
  for t in range(n_rounds):
    want = []
    for a in range(rec.K):
      x = tab[a][t]
      expect(x in (0, upr), "bad-record",
             lambda: f"{rec.alg}: round {t} arm {a}: {x} units recorded, units "
             f"per round {upr}")
      if x:
        want.append(a)
    got = [u[1] for u in ups[i:i + len(want)]]
    expect(sorted(got) == want, "record-vs-updates",
           lambda: f"{rec.alg}: round {t} records units for arms {want} but the "
           f"arms updated were {got} (then "
           f"{[u[1] for u in ups[i + len(want):i + len(want) + 2]]})")
    if full_batches:
      for u in ups[i:i + len(want)]:
        expect(len(u[2]) == upr, "units-lost",
               lambda: f"{rec.alg}: round {t} arm {u[1]} received {len(u[2])} "
               f"units, recorded {upr}")
    i += len(want)
    cum = r.cum_samples[t]
    s = sum(tab[a][t] for a in range(rec.K))
    expect(cum == prev + s, "cumulative",
           lambda: f"{rec.alg}: round {t}: cumulative {cum} after {prev} with "
           f"{s} units recorded in the round")
    prev = cum
  expect(i == len(ups), "unrecorded-updates",
         lambda: f"{rec.alg}: {len(ups) - i} updates after the last recorded "
         "round")


def same(a, b):
  if a == b:
    return True
  return math.isclose(a, b, rel_tol=1e-12, abs_tol=1e-300)


def oracle_history(rec):
  """C05.  Cuts rounds by the records, so that only C04 judges the records."""
  r = rec.result
  cur = [b[2] for b in rec.before]
  ups = list(rec.ups)
  i = 0
  n_rounds = len(r.cum_samples)
  sizes = [len(c) for c in Rounds(rec).rounds]
  for t in range(n_rounds):
    size = sizes[t] if t < len(sizes) else 0
    for u in ups[i:i + size]:
      cur[u[1]] = u[4]
    i += size
    for a, arm in enumerate(rec.arm_objs):
      l, u_, v = cur[a]
      c = rec.costs[a]
      for name, m, want in (("lower bound", r.lcb_by_arm, c * l),
                            ("upper bound", r.ucb_by_arm, c * u_),
                            ("estimate", r.var_est_by_arm, c * v)):
        expect(t < len(m[arm]), "history-shape", lambda: f"{name} of arm {a} "
               f"has no entry for round {t}")
        expect(same(m[arm][t], want), "history-value",
               lambda: f"{rec.alg}: round {t} arm {a}: recorded {name} "
               f"{m[arm][t]}, the arm reported {cur[a]} at cost {c}")
  for a, arm in enumerate(rec.arm_objs):
    for m in (r.lcb_by_arm, r.ucb_by_arm, r.var_est_by_arm):
      expect(len(m[arm]) == n_rounds, "history-shape",
             lambda: f"arm {a}: {len(m[arm])} entries for {n_rounds} rounds")


def oracle_lucb(rec):
  """C06."""
  K = rec.K
  ups = rec.ups
  first = sorted(u[1] for u in ups[:K])
  expect(first == list(range(K)), "initial-round",
         lambda: f"initial updates went to arms {[u[1] for u in ups[:K]]}")
  cur = [None] * K
  for u in ups[:K]:
    cur[u[1]] = u[4]
  rest = ups[K:]
  probes = dict(tie=0, alltie=0)
  for t in range(0, len(rest), 2):
    pair = [u[1] for u in rest[t:t + 2]]
    st = [(c * l, c * u, c * v) for c, (l, u, v) in zip(rec.costs, cur)]
    expect(len(pair) == 2, "pair-size",
           lambda: f"round {t // 2 + 1} updated only arms {pair}; state {st}")
    expect(pair[0] != pair[1], "same-arm-twice",
           lambda: f"round {t // 2 + 1} updated arm {pair[0]} twice; state {st}")
    mins = argmin_set([s[2] for s in st])
    rest_arms = [i for i in range(K) if i not in mins]
    if rest_arms:
      hu = max(st[i][1] for i in mins)
      leaders = [i for i in mins if st[i][1] == hu]
      ll = min(st[i][0] for i in rest_arms)
      chall = [i for i in rest_arms if st[i][0] == ll]
      ok = (pair[0] in leaders and pair[1] in chall) or (
          pair[1] in leaders and pair[0] in chall)
      expect(ok, "wrong-pair",
             lambda: f"round {t // 2 + 1} updated arms {pair}; leaders are "
             f"{leaders}, challengers {chall}; state {st}")
      if len(leaders) > 1 or len(chall) > 1:
        probes["tie"] += 1
    else:
      probes["alltie"] += 1
    for u in rest[t:t + 2]:
      cur[u[1]] = u[4]
  return probes


def oracle_se(rec):
  """C07."""
  rd = Rounds(rec)
  if rd.problem:
    raise Violation(rd.problem[0], rd.problem[1])
  certain, maybe = rd.after
  expect(certain or maybe, "empty-survivors", "no survivor is left")
  best = rec.best()
  expect(best, "empty-survivors", "no arm was returned")
  expect(set(best) <= set(certain + maybe), "eliminated-arm-returned",
         lambda: f"returned {best}; survivors {certain}+{maybe}")
  if rd.totals()[-1] <= _limit(rec):
    expect(len(certain) + len(maybe) == 1 or len(certain) == 1 or
           (not certain and len(best) == 1), "dropped-arm",
           lambda: f"ended within budget with survivors {certain}+{maybe}, "
           f"returned {best}")
  # records agree with who was updated
  for t, chunk in enumerate(rd.rounds):
    for i, a in enumerate(rec.arm_objs):
      x = rec.result.samples_by_arm[a]
      expect(t < len(x) and bool(x[t]) == (i in [u[1] for u in chunk]),
             "record-vs-updates", lambda: f"round {t} arm {i}")


def oracle_uniform(rec, data_len):
  """C08."""
  K = rec.K
  gi = 0
  ups = rec.ups
  seq = [t for t in rec.trace if t[0] in ("upd", "gen")]
  expect(len(ups) % K == 0, "skipped-arm",
         lambda: f"{len(ups)} updates of {K} arms")
  for t in range(0, len(ups), K):
    chunk = ups[t:t + K]
    expect(sorted(u[1] for u in chunk) == list(range(K)), "skipped-arm",
           lambda: f"round {t // K} updated arms {[u[1] for u in chunk]}")
    if rec.mode == "gen":
      batches = {u[2] for u in chunk}
      expect(len(batches) == 1, "different-batches",
             lambda: f"round {t // K}: arms received different units")
  if rec.mode == "gen":
    expect(len(rec.gens) == len(ups) // K, "generator-calls",
           lambda: f"{len(rec.gens)} generator calls for {len(ups) // K} rounds")
    for g, t in zip(rec.gens, range(0, len(ups), K)):
      expect(g[1] == rec.cfg["upr"], "batch-size",
             lambda: f"{g[1]} units requested, units per round {rec.cfg['upr']}")
      expect(ups[t][2] == g[2], "different-batches",
             lambda: f"round {t // K}: arms received other units than generated")
  else:
    expect(not rec.gens, "generator-calls", "generator used in dataset mode")
    for a in range(K):
      pos = rec.before[a][0]
      for u in ups:
        if u[1] == a:
          want = tuple(range(pos, min(pos + rec.cfg["upr"], data_len)))
          pos += len(want)
          expect(u[2] == want, "not-next-units",
                 lambda: f"arm {a} received units {u[2][:20]}, its next units "
                 f"are {want[:20]}")
  expect(len(rec.result.cum_samples) == len(ups) // K, "rounds",
         lambda: f"{len(rec.result.cum_samples)} recorded rounds for "
         f"{len(ups) // K} rounds of updates")


def oracle_delta(rec):
  """C10 (also for runs that failed)."""
  want = rec.cfg["error_prob"] / rec.K
  for n, u in enumerate(rec.ups):
    expect(math.isclose(u[3], want, rel_tol=1e-12), "wrong-level",
           lambda: f"{rec.alg}: update {n} of arm {u[1]} at level {u[3]}, "
           f"expected {rec.cfg['error_prob']}/{rec.K}")

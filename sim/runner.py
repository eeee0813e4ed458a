"""Seeded search over simulated runs: workers, evidence, minimisation, replay."""
import argparse
import collections
import copy
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import traceback

from sim import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_WALL = 60.0       # a run taking longer is repeated under a line budget
LINE_BUDGET = 4_000_000
SLOW_WALL = 400.0


def derive(seed, prop, i):
  return int.from_bytes(
      hashlib.sha256(f"{seed}/{prop}/{i}".encode()).digest()[:8], "big")


class LineBudget:
  """Raises StepLimit after too many executed lines of the package."""

  def __init__(self, n):
    self.n = n
    self.hook = core.LineHook(self._cb, tool=3)

  def _cb(self, code, line):
    self.n -= 1
    if self.n < 0:
      raise core.StepLimit(f"more than {LINE_BUDGET} lines executed")

  def __enter__(self):
    self.hook.__enter__()

  def __exit__(self, *a):
    self.hook.__exit__()
    return False


def execute(check, plan, line_budget=None):
  """Runs one plan in this process.  Returns a picklable outcome dict."""
  lib = core.boot()
  ctx = core.Ctx()
  out = dict(kind="ok", cls=None, msg=None)
  core.set_ambient(plan.get("ambient", 0))
  lib.np.random.seed(plan.get("np_seed", 0))
  sys.stdout.flush()
  try:
    if line_budget:
      with LineBudget(line_budget):
        check.run(ctx, plan)
    else:
      check.run(ctx, plan)
  except core.Violation as e:
    out.update(kind="violation", cls=e.cls, msg=e.msg)
  except core.PlanInvalid as e:
    out.update(kind="invalid", msg=str(e))
  except core.StepLimit as e:
    out.update(kind="violation", cls="no-progress", msg=str(e))
  except core.INJECTED as e:
    out.update(kind="error", cls="escaped", msg=traceback.format_exc())
  except BaseException as e:  # pylint: disable=broad-except
    if core.in_repo(e.__traceback__):
      where = core.last_repo_frame(e.__traceback__)
      out.update(kind="violation", cls=f"exception:{type(e).__name__}@{where}",
                 msg=f"{type(e).__name__}: {e} (in {where})")
      out["trace"] = traceback.format_exc()
    else:
      out.update(kind="error", cls=type(e).__name__, msg=traceback.format_exc())
  out["msg"] = None if out["msg"] is None else str(out["msg"])[:4000]
  out.update(digest=ctx.digest(), events=ctx.n_events, steps=ctx.steps,
             faults=dict(ctx.faults), probes=dict(ctx.probes),
             sig=ctx.signature(), nontrivial=bool(ctx.nontrivial),
             tail=list(ctx.tail))
  return out


def _read_all(fd, deadline):
  buf = b""
  while True:
    left = deadline - core.real_time()
    if left <= 0:
      return None
    r, _, _ = select.select([fd], [], [], left)
    if not r:
      return None
    b = os.read(fd, 1 << 16)
    if not b:
      return buf
    buf += b


def in_child(fn, wall):
  """Runs fn() in a forked child; returns its result or None on timeout."""
  r, w = os.pipe()
  pid = os.fork()
  if pid == 0:
    code = 1
    try:
      os.close(r)
      devnull = os.open(os.devnull, os.O_WRONLY)
      os.dup2(devnull, 1)
      res = fn()
      b = pickle.dumps(res)
      while b:
        n = os.write(w, b)
        b = b[n:]
      code = 0
    except BaseException:  # pylint: disable=broad-except
      traceback.print_exc()
    finally:
      os._exit(code)
  os.close(w)
  buf = _read_all(r, core.real_time() + wall)
  os.close(r)
  if buf is None:
    os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    return None
  os.waitpid(pid, 0)
  if not buf:
    return dict(kind="error", cls="child", msg="simulated run died", faults={},
                probes={}, digest="", events=0, steps=0, sig="",
                nontrivial=False, tail=[])
  return pickle.loads(buf)


def isolated(check, plan, wall=RUN_WALL):
  """One run in its own process, from the freshly booted state."""
  out = in_child(lambda: execute(check, plan), wall)
  if out is None:  # slow or stuck: decide by executed lines, not by the clock
    out = in_child(lambda: execute(check, plan, LINE_BUDGET), SLOW_WALL)
  if out is None:
    out = dict(kind="error", cls="timeout", msg="run exceeded the wall limit",
               faults={}, probes={}, digest="", events=0, steps=0, sig="",
               nontrivial=False, tail=[])
  return out


def make_plan(check, seed, i, tier):
  rng = random.Random(derive(seed, check.id, i))
  plan = check.gen(rng, i, tier)
  plan.setdefault("np_seed", rng.randrange(2**31))
  plan.setdefault("ambient", rng.randrange(2**31))
  return plan


# --------------------------------------------------------------------------


def _worker(check, seed, tier, rfd, wfd):
  """Takes index ranges from rfd, writes results to wfd."""
  gc.collect()
  gc.freeze()
  findings = known_findings(check.id)
  while True:
    h = b""
    while len(h) < 8:
      b = os.read(rfd, 8 - len(h))
      if not b:
        os._exit(0)
      h += b
    a, z = struct.unpack("II", h)
    res = []
    for i in range(a, z):
      plan = make_plan(check, seed, i, tier)
      plan = json.loads(json.dumps(plan))
      o = isolated(check, plan)
      o["i"] = i
      if o["kind"] == "violation" and is_known(findings, o):
        o["kind"] = "known"
      if o["kind"] in ("ok", "known"):
        o.pop("tail")
      res.append(o)
      if o["kind"] in ("violation", "error"):
        break
    b = pickle.dumps(res)
    b = struct.pack("I", len(b)) + b
    while b:
      n = os.write(wfd, b)
      b = b[n:]


def search(check, seed, tier, n, workers, cap, log=None):
  """Runs indices 0..n-1; returns (outcomes in order, complete?)."""
  chunk = max(1, min(16, n // (workers * 4) or 1))
  chunks = [(a, min(a + chunk, n)) for a in range(0, n, chunk)]
  procs = []
  for _ in range(workers):
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    pid = os.fork()
    if pid == 0:
      os.close(w1)
      os.close(r2)
      for p in procs:
        os.close(p["w"])
        os.close(p["r"])
      try:
        _worker(check, seed, tier, r1, w2)
      except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
      os._exit(1)
    os.close(r1)
    os.close(w2)
    procs.append(dict(pid=pid, w=w1, r=r2, busy=None))
  done = {}
  nxt = 0
  t0 = core.real_time()
  stop_at = None   # chunk index with the first violation
  capped = False
  try:
    while True:
      for p in procs:
        if p["busy"] is None and nxt < len(chunks) and not capped and (
            stop_at is None or nxt < stop_at):
          os.write(p["w"], struct.pack("II", *chunks[nxt]))
          p["busy"] = nxt
          nxt += 1
      busy = [p for p in procs if p["busy"] is not None]
      if not busy:
        break
      r, _, _ = select.select([p["r"] for p in busy], [], [], 5)
      for p in busy:
        if p["r"] not in r:
          continue
        h = _exact(p["r"], 4)
        res = pickle.loads(_exact(p["r"], struct.unpack("I", h)[0]))
        done[p["busy"]] = res
        if any(o["kind"] in ("violation", "error") for o in res):
          stop_at = p["busy"] if stop_at is None else min(stop_at, p["busy"])
        p["busy"] = None
      if core.real_time() - t0 > cap:
        capped = True
  finally:
    for p in procs:
      os.close(p["w"])
      os.close(p["r"])
    for p in procs:
      try:
        os.kill(p["pid"], signal.SIGTERM)
      except ProcessLookupError:
        pass
      os.waitpid(p["pid"], 0)
  outs = []
  for c in range(len(chunks)):
    if c not in done:
      break
    outs.extend(done[c])
    if any(o["kind"] in ("violation", "error") for o in done[c]):
      break
  return outs, capped


def _exact(fd, n):
  b = b""
  while len(b) < n:
    x = os.read(fd, n - len(b))
    if not x:
      raise RuntimeError("a worker died")
    b += x
  return b


# --------------------------------------------------------------------------
# Minimisation.


def _paths(x, pre=()):
  """All containers and leaves of a plan, outermost first."""
  yield pre, x
  if isinstance(x, dict):
    for k in sorted(x):
      yield from _paths(x[k], pre + (k,))
  elif isinstance(x, list):
    for i, v in enumerate(x):
      yield from _paths(v, pre + (i,))


def _get(x, path):
  for k in path:
    x = x[k]
  return x


def _with(plan, path, val):
  p = copy.deepcopy(plan)
  if not path:
    return val
  _get(p, path[:-1])[path[-1]] = val
  return p


def candidates(plan):
  """Generic simplifications, big steps first."""
  lists = [(p, v) for p, v in _paths(plan) if isinstance(v, list) and v]
  for p, v in sorted(lists, key=lambda t: (-len(t[1]), t[0] and str(t[0]))):
    n = len(v)
    size = n // 2
    while size >= 1:
      for a in range(0, n, size):
        yield _with(plan, p, v[:a] + v[a + size:])
      size //= 2
  for p, v in _paths(plan):
    if isinstance(v, dict) and p:
      for k in sorted(v):
        q = copy.deepcopy(plan)
        del _get(q, p)[k]
        yield q
    if v is not None and p and isinstance(v, (dict, list)) and v:
      yield _with(plan, p, None)
  for p, v in _paths(plan):
    if not p or isinstance(v, bool) or p[-1] in ("np_seed", "ambient"):
      if p and v is True:
        yield _with(plan, p, False)
      if p and p[-1] in ("np_seed", "ambient") and v:
        yield _with(plan, p, 0)
      continue
    if isinstance(v, int):
      for c in (0, 1, 2, v // 2, v - 1):
        if abs(c) < abs(v):
          yield _with(plan, p, c)
    elif isinstance(v, float):
      for c in (0.0, 1.0, float(int(v)) if abs(v) < 1e9 and v == v else 0.0,
                round(v, 1) if abs(v) < 1e9 else 0.0):
        if c != v and (abs(c) < abs(v) or len(repr(c)) < len(repr(v))):
          yield _with(plan, p, c)


def minimise(check, plan, cls, wall=60.0, max_evals=1500):
  t0 = core.real_time()
  evals = 0
  best = plan
  seen = {core.jdump(plan)}
  improved = True
  while improved:
    improved = False
    gens = [check.shrink(best)] if hasattr(check, "shrink") else []
    gens.append(candidates(best))
    for gen in gens:
      for cand in gen:
        if evals >= max_evals or core.real_time() - t0 > wall:
          return best, evals
        key = core.jdump(cand)
        if key in seen:
          continue
        seen.add(key)
        try:
          if not check.valid(cand):
            continue
        except Exception:  # pylint: disable=broad-except
          continue
        evals += 1
        o = in_child(lambda: execute(check, cand), 20.0)
        if o and o["kind"] == "violation" and o["cls"] == cls:
          best = cand
          improved = True
          break
      if improved:
        break
  return best, evals


# --------------------------------------------------------------------------


def known_findings(prop):
  """Entries 'finding: property=<id> class=<cls> match=<text> -- <what>'."""
  path = os.path.join(VERIF, "known-findings.txt")
  out = []
  if os.path.exists(path):
    for line in open(path):
      line = line.strip()
      if line.startswith("finding: property=" + prop + " "):
        f = {}
        head, _, what = line.partition(" -- ")
        for tok in head.split()[1:]:
          k, _, v = tok.partition("=")
          f[k] = v
        f["what"] = what
        out.append(f)
  return out


def is_known(findings, out):
  for f in findings:
    if f.get("class") == out["cls"] and f.get("match", "") in out["msg"]:
      return f
  return None


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seed", type=int,
                  default=int(os.environ.get("VERIF_SEED", "1")))
  ap.add_argument("--runs", type=int)
  ap.add_argument("--workers", type=int,
                  default=max(1, min(8, os.cpu_count() or 1)))
  ap.add_argument("--cap", type=float)
  ap.add_argument("--digests", help="write every run's digest to this file")
  ap.add_argument("--no-evidence", action="store_true")
  a = ap.parse_args(argv)
  t0 = core.real_time()
  from sim import registry  # pylint: disable=g-import-not-at-top
  core.boot()
  check = registry.get(a.prop)
  if a.tier not in ("quick", "thorough"):
    a.tier = "quick"
  n = a.runs or check.n[a.tier]
  cap = a.cap or (240.0 if a.tier == "quick" else 3 * 3600.0)
  outs, capped = search(check, a.seed, a.tier, n, a.workers, cap)
  t_search = core.real_time() - t0
  err = next((o for o in outs if o["kind"] == "error"), None)
  findings = known_findings(a.prop)
  viol = next((o for o in outs if o["kind"] == "violation"), None)
  status = 0
  lines = []
  if viol is not None and (err is None or viol["i"] < err["i"]):
    err = None
    plan = json.loads(json.dumps(make_plan(check, a.seed, viol["i"], a.tier)))
    status = 1
    small, evals = minimise(check, plan, viol["cls"])
    final = isolated(check, small)
    if not (final["kind"] == "violation" and final["cls"] == viol["cls"]):
      small, final = plan, isolated(check, plan)
    d = os.path.join(VERIF, "out", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{a.prop}-s{a.seed}-r{viol['i']}.json")
    with open(path, "w") as f:
      json.dump(dict(property=a.prop, verif_seed=a.seed, run=viol["i"],
                     tier=a.tier, run_seed=derive(a.seed, a.prop, viol["i"]),
                     cls=final["cls"], msg=final["msg"],
                     digest=final["digest"], events=final["events"],
                     minimise_evals=evals, last_events=final["tail"],
                     plan=small, original_plan=plan), f, indent=1,
                sort_keys=True)
    lines.append(f"violation class: {final['cls']}")
    lines.append(f"  {final['msg']}")
    if final.get("trace"):
      lines.append(final["trace"])
    lines.append(f"  run {viol['i']} of seed {a.seed}; minimised with {evals} "
                 f"runs; replay in a fresh interpreter: {fresh_replay(path)}")
    lines.append(f"VIOLATION property={a.prop} replay={path}")
  for f in findings:
    lines.append(f"KNOWN-FINDING: property={a.prop} {f['what']}")
  if err is not None:
    status = 2
    lines.append(f"harness error in run {err['i']}: {err['cls']}\n{err['msg']}")
  ran = len(outs)
  if status == 0 and capped and ran < max(1, n // 5):
    status = 2
    lines.append(f"only {ran} of {n} runs fitted into {cap} s")
  wall = core.real_time() - t0
  if not a.no_evidence and status in (0, 1):
    write_evidence(check, a, outs, n, capped, t_search, wall, status)
  if a.digests:
    with open(a.digests, "w") as f:
      for o in outs:
        f.write(f"{o['i']} {o['kind']} {o['cls']} {o['digest']} {o['events']}\n")
  for x in lines:
    print(x)
  print(f"{a.prop}: {ran} runs in {t_search:.1f} s, status {status}")
  return status


def plain(x):
  """Strict JSON: non-finite numbers become strings."""
  if isinstance(x, dict):
    return {k: plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [plain(v) for v in x]
  if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
    return str(x)
  return x


def fresh_replay(path):
  """Replays in a fresh interpreter with another hash seed."""
  env = dict(os.environ, SIM_HASHSEED="4711")
  try:
    p = subprocess.run([os.path.join(VERIF, "replay"), path], env=env,
                       capture_output=True, text=True, timeout=120, check=False)
  except subprocess.TimeoutExpired:
    return "timed out"
  return ("identical" if p.returncode == 1 and "identical to the recorded run"
          in p.stdout else "DIFFERS")


def write_evidence(check, a, outs, n, capped, t_search, wall, status):
  faults, probes = collections.Counter(), collections.Counter()
  for o in outs:
    faults.update(o["faults"])
    probes.update(o["probes"])
  runs = [o for o in outs if o["kind"] != "invalid"]
  sigs = {o["sig"] for o in runs if o["nontrivial"]}
  samples = []
  idx = [o["i"] for o in runs if o["nontrivial"]][:2] + [
      o["i"] for o in runs[-1:]]
  for i in idx:
    o = next(x for x in runs if x["i"] == i)
    samples.append(dict(run=i, run_seed=derive(a.seed, check.id, i),
                        plan=make_plan(check, a.seed, i, a.tier),
                        events=o["events"], log_digest=o["digest"],
                        faults=o["faults"], probes=o["probes"]))
  ev = dict(
      property=check.id, tier=a.tier, seed=a.seed, level="exploration",
      coverage=dict(
          evaluations=len(runs), distinct_nontrivial=len(sigs),
          rule=check.rule, samples=samples or [dict(note="no run")],
          planned_runs=n, stopped_at_wall_cap=capped,
          simulated_runs_per_hour=int(3600 * len(runs) / max(t_search, 1e-3)),
          seeds="one derived seed per run",
          simulated_time=dict(
              unit="logical steps (data-source calls, arm updates, scheduler "
              "switches, crash-point lines); the code has no timers",
              steps=sum(o["steps"] for o in runs),
              logged_events=sum(o["events"] for o in runs)),
          faults_injected=dict(sorted(faults.items())),
          runs_with_faults=sum(1 for o in runs if o["faults"]),
          runs_without_faults=sum(1 for o in runs if not o["faults"]),
          probes=dict(sorted(probes.items())),
          distinct_measure=check.measure,
          real_components=check.real, stubbed_components=check.stub),
      assumptions=check.assumptions, wall_s=round(wall, 2),
      violations=sum(1 for o in outs if o["kind"] == "violation"))
  d = os.path.join(VERIF, "evidence")
  os.makedirs(d, exist_ok=True)
  tmp = os.path.join(d, f".{check.id}.tmp")
  with open(tmp, "w") as f:
    json.dump(plain(ev), f, indent=1, sort_keys=True)
  os.replace(tmp, os.path.join(d, f"{check.id}.json"))


def replay(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument("file")
  ap.add_argument("--original", action="store_true")
  a = ap.parse_args(argv)
  r = json.load(open(a.file))
  from sim import registry  # pylint: disable=g-import-not-at-top
  core.boot()
  check = registry.get(r["property"])
  plan = r["original_plan"] if a.original else r["plan"]
  o = isolated(check, plan)
  print(f"outcome: {o['kind']} {o['cls']}\n  {o['msg']}")
  if o.get("trace"):
    print(o["trace"])
  for t in o["tail"]:
    print("   ", t)
  if o["kind"] == "violation":
    same = not a.original and o["digest"] == r["digest"] and o["cls"] == r["cls"]
    print("identical to the recorded run" if same else
          "differs from the recorded run")
    print(f"VIOLATION property={r['property']} replay={a.file}")
    return 1
  return 0 if o["kind"] == "ok" else 2

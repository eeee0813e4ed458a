"""Simulator core: seams, event log, fault bookkeeping, line-level preemption and crashes.

Everything here is deterministic: one plan (a JSON object) plus the code under
test decide every event.  Nothing in this file draws from numpy's generator or
reads a real clock on behalf of a run.
"""
import collections
import hashlib
import json
import os
import random
import sys
import threading
import types

REPO = os.environ.get("SIM_REPO", "/repo")  # override: development only
PKG = os.path.join(REPO, "causal_effect_bandits") + os.sep


class Violation(Exception):
  """The property under test does not hold in this run."""

  def __init__(self, cls, msg):
    super().__init__(f"{cls}: {msg}")
    self.cls = cls
    self.msg = msg


class PlanInvalid(Exception):
  """A shrunken plan makes no sense; never a verdict."""


class StepLimit(BaseException):
  """The run exceeded its step budget (no progress)."""


class Abandoned(BaseException):
  """Unwinds parked tasks at the end of a concurrent run."""


class InjectedFault(Exception):
  """A fault injected by the simulator."""


class InjectedInterrupt(KeyboardInterrupt):
  """A keyboard interrupt injected by the simulator."""


class InjectedAllocFailure(MemoryError):
  """A failed allocation injected by the simulator."""


INJECTED = (InjectedFault, InjectedInterrupt, InjectedAllocFailure)

_BASES = (ValueError, TypeError, KeyError, IndexError, AttributeError, OSError,
          RuntimeError, ArithmeticError, ZeroDivisionError, FloatingPointError,
          OverflowError, AssertionError, NotImplementedError, TimeoutError,
          EOFError, LookupError, MemoryError, "LinAlgError", BufferError,
          ConnectionError, RecursionError, UnicodeError, UserWarning)
FAULT_CLASSES = {"fault": InjectedFault, "interrupt": InjectedInterrupt,
                 "alloc": InjectedAllocFailure}


def _fault_classes():
  import numpy.linalg  # pylint: disable=g-import-not-at-top
  for b in _BASES:
    if isinstance(b, str):
      b = getattr(numpy.linalg, b)
    FAULT_CLASSES[b.__name__] = type("Injected" + b.__name__,
                                     (InjectedFault, b), {})


_fault_classes()


def fault_kind(rng):
  """The kind of an injected exception: neutral, or one that code may catch."""
  if rng.random() < 0.5:
    return rng.choice(["fault", "fault", "interrupt", "alloc"])
  return rng.choice(["ValueError", "RuntimeError", "KeyError", "IndexError",
                     "OSError", "LinAlgError"] + sorted(FAULT_CLASSES))


def make_fault(kind, what="injected"):
  return FAULT_CLASSES[kind](what)


def expect(cond, cls, msg):
  if not cond:
    raise Violation(cls, msg() if callable(msg) else msg)


class Ctx:
  """One simulated run: its event log, fault counters, probes, step budget."""

  def __init__(self, step_limit=200000):
    self._h = hashlib.sha256()
    self.n_events = 0
    self.tail = collections.deque(maxlen=40)
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.steps = 0
    self.step_limit = step_limit
    self._sig = hashlib.sha256()
    self.sig_len = 0
    self.nontrivial = False

  def ev(self, *event):
    """Logs an event (also the logical clock)."""
    self.n_events += 1
    s = repr(event)
    self._h.update(s.encode())
    self.tail.append(s if len(s) < 300 else s[:300] + "...")

  def sig(self, *x):
    """Adds to the abstract signature used to count distinct runs."""
    self._sig.update(repr(x).encode())
    self.sig_len += 1

  def fault(self, kind, n=1):
    self.faults[kind] += n
    self.ev("fault", kind)

  def probe(self, name, n=1):
    self.probes[name] += n

  def tick(self, n=1):
    self.steps += n
    if self.steps > self.step_limit:
      raise StepLimit(f"more than {self.step_limit} steps")

  def digest(self):
    return self._h.hexdigest()

  def signature(self):
    return self._sig.hexdigest()[:16]


# --------------------------------------------------------------------------
# Import of the code under test, always from source.


class _Lib:
  pass


lib = _Lib()


def boot():
  """Imports the package from /repo's working tree, ignoring cached bytecode."""
  if getattr(lib, "ready", False):
    return lib
  import warnings  # pylint: disable=g-import-not-at-top
  warnings.filterwarnings("ignore")
  os.environ.setdefault("MPLBACKEND", "Agg")
  sys.dont_write_bytecode = True
  import numpy as np
  import scipy.stats  # noqa: F401
  import sklearn.ensemble  # noqa: F401
  import sklearn.gaussian_process  # noqa: F401
  import sklearn.kernel_ridge  # noqa: F401
  import sklearn.linear_model  # noqa: F401
  import matplotlib.pyplot  # noqa: F401
  from absl import logging as absl_logging
  absl_logging.set_verbosity(absl_logging.FATAL)
  _install_seams(np)
  # Never use bytecode that lies in the working tree (same-second edits).
  sys.pycache_prefix = "/nonexistent-pycache-prefix"
  if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
  import importlib
  names = ["arms", "bandits", "data", "nonlinear_utils", "paper_utils",
           "parameters", "scm", "example_scm"]
  for n in names:
    m = importlib.import_module("causal_effect_bandits." + n)
    if not os.path.realpath(m.__file__).startswith(PKG):
      raise RuntimeError(f"{m.__file__} is not the code under test")
    setattr(lib, n, m)
  sys.pycache_prefix = None
  lib.np = np
  lib.ready = True
  np.seterr(all="ignore")
  warnings.filterwarnings("ignore")
  LineHook(None)._codes()
  return lib


# --------------------------------------------------------------------------
# Ambient nondeterminism: entropy, clocks, Python's random module.

_ambient = {"rng": random.Random(0), "t": 0.0}
_orig = {}


def set_ambient(salt):
  """Restarts every ambient source from a salt; part of every run's start."""
  _ambient["rng"] = random.Random(f"ambient/{salt}")
  _ambient["t"] = 1.6e9 + _ambient["rng"].random() * 1e8
  random.seed(f"py/{salt}")


def _entropy_bits():
  return _ambient["rng"].getrandbits(64)


def _sim_clock():
  _ambient["t"] += 0.001 + _ambient["rng"].random() * 1e-3
  return _ambient["t"]


def _install_seams(np):
  """Puts OS entropy and clocks, as seen from Python, behind the simulator."""
  import time
  import secrets
  import uuid
  # (sklearn/scipy internals that hold their own references are unaffected and
  # do not use entropy in the code paths exercised.)
  o_default_rng, o_rs, o_seed = (np.random.default_rng, np.random.RandomState,
                                 np.random.seed)
  o_ss = np.random.SeedSequence
  _orig.update(time=time.time, sleep=time.sleep, monotonic=time.monotonic,
               perf_counter=time.perf_counter)

  def default_rng(seed=None):
    return o_default_rng(_entropy_bits() if seed is None else seed)

  class RandomState(o_rs):

    def __init__(self, seed=None):
      super().__init__(_entropy_bits() % 2**32 if seed is None else seed)

  class SeedSequence(o_ss):

    def __init__(self, entropy=None, **kw):
      super().__init__(_entropy_bits() if entropy is None else entropy, **kw)

  def seed(s=None):
    o_seed(_entropy_bits() % 2**32 if s is None else s)

  np.random.default_rng = default_rng
  np.random.SeedSequence = SeedSequence
  np.random.seed = seed
  for bg in ("PCG64", "PCG64DXSM", "MT19937", "Philox", "SFC64"):
    cls = getattr(np.random, bg)

    def make(cls):
      def f(seed=None):
        return cls(_entropy_bits() if seed is None else seed)
      return f
    setattr(np.random, bg, make(cls))
  # RandomState is used as a type by sklearn (isinstance); keep it a type.
  np.random.RandomState = RandomState

  def urandom(n):
    return bytes(_ambient["rng"].getrandbits(8) for _ in range(n))

  os.urandom = urandom
  secrets.randbits = lambda k: _ambient["rng"].getrandbits(k)
  secrets.token_bytes = lambda n=32: urandom(n)
  uuid.uuid4 = lambda: uuid.UUID(int=_ambient["rng"].getrandbits(128))
  time.time = _sim_clock
  time.monotonic = _sim_clock
  time.perf_counter = _sim_clock
  time.time_ns = lambda: int(_sim_clock() * 1e9)
  time.perf_counter_ns = lambda: int(_sim_clock() * 1e9)
  time.monotonic_ns = lambda: int(_sim_clock() * 1e9)
  time.sleep = lambda s: None


def real_time():
  return _orig["time"]() if _orig else __import__("time").time()


# --------------------------------------------------------------------------
# Line events in the code under test: crash points and preemption points.

_TOOL = 4


class LineHook:
  """Calls back at every executed source line of the package (or of a file)."""

  def __init__(self, callback, files=None, tool=_TOOL):
    self.callback = callback
    self.files = files
    self.tool = tool

  _cache = {}

  def _codes(self):
    key = tuple(self.files) if self.files else None
    if key not in self._cache:
      self._cache[key] = self._find_codes()
    return self._cache[key]

  def _find_codes(self):
    seen = set()
    out = []

    def visit(code):
      if code in seen:
        return
      seen.add(code)
      out.append(code)
      for c in code.co_consts:
        if isinstance(c, types.CodeType):
          visit(c)

    for m in list(sys.modules.values()):
      f = getattr(m, "__file__", None)
      if not f or not os.path.realpath(f).startswith(PKG):
        continue
      if self.files and os.path.basename(f) not in self.files:
        continue
      self._visit_ns(m, vars(m), f, visit, set())
    return out

  def _visit_ns(self, mod, ns, f, visit, done):
    for v in list(ns.values()):
      if isinstance(v, (staticmethod, classmethod)):
        v = v.__func__
      if isinstance(v, property):
        for g in (v.fget, v.fset, v.fdel):
          if isinstance(g, types.FunctionType) and g.__code__.co_filename == f:
            visit(g.__code__)
        continue
      while hasattr(v, "__wrapped__"):
        v = v.__wrapped__
      if isinstance(v, types.FunctionType):
        if v.__code__.co_filename == f:
          visit(v.__code__)
      elif isinstance(v, type) and v.__module__ == mod.__name__:
        if v not in done:
          done.add(v)
          self._visit_ns(mod, vars(v), f, visit, done)

  def __enter__(self):
    mon = sys.monitoring
    self.codes = self._codes()
    mon.use_tool_id(self.tool, "sim")
    mon.register_callback(self.tool, mon.events.LINE, self.callback)
    for c in self.codes:
      mon.set_local_events(self.tool, c, mon.events.LINE)
    return self

  def __exit__(self, *exc):
    mon = sys.monitoring
    for c in self.codes:
      mon.set_local_events(self.tool, c, 0)
    mon.register_callback(self.tool, mon.events.LINE, None)
    mon.free_tool_id(self.tool)
    return False


class CrashAtLine:
  """Context manager: raises `exc` at the n-th executed line of the package."""

  def __init__(self, ctx, n, exc=None, files=None):
    self.n = n
    self.count = 0
    self.fired = False
    self.where = None
    self.exc = exc if exc is not None else InjectedInterrupt(f"line {n}")
    self.ctx = ctx
    self.hook = LineHook(self._cb, files)

  def _cb(self, code, line):
    self.count += 1
    if not self.fired and self.count >= self.n:
      self.fired = True
      self.where = code.co_name
      raise self.exc

  def __enter__(self):
    self.hook.__enter__()
    return self

  def __exit__(self, *a):
    self.hook.__exit__()
    return False


class AtLines:
  """Calls `fn()` at the given executed-line numbers (ambient activity)."""

  def __init__(self, at, fn, files=None):
    self.at = set(at)
    self.fn = fn
    self.count = 0
    self.fired = 0
    self.hook = LineHook(self._cb, files)

  def _cb(self, code, line):
    self.count += 1
    if self.count in self.at:
      self.fired += 1
      self.fn()

  def __enter__(self):
    self.hook.__enter__()
    return self

  def __exit__(self, *a):
    self.hook.__exit__()
    return False


class Scheduler:
  """Runs tasks as real threads, exactly one at a time.

  A task can lose control at any executed line of the package.  `gaps` decides:
  after gaps[i][0] line events the i-th preemption hands control to the
  runnable task number gaps[i][1] (modulo).  When the gaps are used up or a
  task ends, the lowest-numbered runnable task continues.  Each task has its
  own stream of numpy random numbers (swapped at every switch).
  """

  def __init__(self, ctx, gaps, files=None, interrupt=None):
    self.ctx = ctx
    self.gaps = list(gaps)
    self.tasks = []
    self.files = files
    self.np = lib.np
    self.switches = 0
    self.current = None
    self.left = self.gaps.pop(0) if self.gaps else None
    self.interrupt = interrupt  # (task, n) raise an interrupt at its n-th line
    self.dead = False

  def spawn(self, fn, np_seed):
    st = self._fresh(np_seed)
    t = types.SimpleNamespace(fn=fn, sem=threading.Semaphore(0), done=False,
                              exc=None, res=None, rng=st, idx=len(self.tasks),
                              lines=0, started=False)
    self.tasks.append(t)
    return t

  def _fresh(self, seed):
    saved = self.np.random.get_state()
    self.np.random.seed(seed)
    st = self.np.random.get_state()
    self.np.random.set_state(saved)
    return st

  def _cb(self, code, line):
    t = self.current
    if t is None or threading.current_thread() is not t.thread:
      return
    if self.dead:
      raise Abandoned()
    t.lines += 1
    if self.interrupt and self.interrupt[0] == t.idx and (
        t.lines == self.interrupt[1]):
      self.ctx.fault("interrupt_in_task")
      raise InjectedInterrupt(f"task {t.idx}")
    if self.left is None:
      return
    self.left[0] -= 1
    if self.left[0] > 0:
      return
    want = self.left[1]
    self.left = list(self.gaps.pop(0)) if self.gaps else None
    cand = [x for x in self.tasks if not x.done and x is not t]
    if not cand:
      return
    nxt = cand[want % len(cand)]
    self.switches += 1
    self.ctx.ev("switch", t.idx, nxt.idx, code.co_name)
    self.ctx.sig(t.idx, nxt.idx, code.co_name)
    self._handover(t, nxt)
    t.sem.acquire()
    if self.dead:
      raise Abandoned()

  def _handover(self, cur, nxt):
    if cur is not None:
      cur.rng = self.np.random.get_state()
    self.np.random.set_state(nxt.rng)
    self.current = nxt
    nxt.sem.release()

  def _main(self, t):
    t.sem.acquire()
    if not self.dead:
      try:
        t.res = t.fn()
      except BaseException as e:  # pylint: disable=broad-except
        t.exc = e
    t.done = True
    rest = [x for x in self.tasks if not x.done]
    if rest and not self.dead:
      self._handover(t, rest[0])
    else:
      self.finished.release()

  def run(self, wall=100):
    saved = self.np.random.get_state()
    self.finished = threading.Semaphore(0)
    if self.left is not None:
      self.left = list(self.left)
    for t in self.tasks:
      t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
      t.thread.start()
    with LineHook(self._cb, self.files):
      self._handover(None, self.tasks[0])
      ok = self.finished.acquire(timeout=wall)
    if not ok:
      self.dead = True
      for t in self.tasks:
        t.sem.release()
      raise RuntimeError("simulated tasks blocked outside the scheduler")
    for t in self.tasks:
      t.thread.join(10)
    self.np.random.set_state(saved)
    self.ctx.fault("preemption", self.switches) if self.switches else None
    return self.tasks


# --------------------------------------------------------------------------
# Allocation failures at array-building calls made by the package.


class AllocFaults:
  """Fails the n-th array-building numpy call made while active (1-based)."""

  NAMES = ("concatenate", "append", "vstack", "hstack", "column_stack", "stack",
           "copy", "insert", "delete", "resize", "array", "zeros", "empty")

  def __init__(self, ctx, n):
    self.ctx = ctx
    self.n = n
    self.count = 0
    self.fired = False
    self.exc = InjectedAllocFailure(f"allocation {n}")

  def _hit(self):
    self.count += 1
    if not self.fired and self.count == self.n:
      self.fired = True
      self.ctx.fault("alloc_failure")
      raise self.exc

  def _from_repo(self):
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(PKG)

  def __enter__(self):
    np = lib.np
    self.saved = {}
    me = self
    for name in self.NAMES:
      o = getattr(np, name, None)
      if o is None:
        continue
      self.saved[name] = o

      def make(o):
        def f(*a, **k):
          if me._from_repo():
            me._hit()
          return o(*a, **k)
        return f
      setattr(np, name, make(o))
    for name in ("r_", "c_"):
      o = getattr(np, name)
      self.saved[name] = o

      class Wrap:
        def __init__(self, o):
          self.o = o

        def __getitem__(self, key):
          if me._from_repo():
            me._hit()
          return self.o[key]
      setattr(np, name, Wrap(o))
    return self

  def __exit__(self, *a):
    for name, o in self.saved.items():
      setattr(lib.np, name, o)
    return False


# --------------------------------------------------------------------------


def in_repo(tb):
  """True if the traceback passes through the code under test."""
  while tb is not None:
    f = tb.tb_frame.f_code.co_filename
    if os.path.realpath(f).startswith(PKG):
      return True
    tb = tb.tb_next
  return False


def last_repo_frame(tb):
  """Name of the innermost function of the package in a traceback."""
  where = "?"
  while tb is not None:
    code = tb.tb_frame.f_code
    if os.path.realpath(code.co_filename).startswith(PKG):
      where = f"{os.path.basename(code.co_filename)}:{code.co_name}"
    tb = tb.tb_next
  return where


def jdump(x):
  return json.dumps(x, sort_keys=True)

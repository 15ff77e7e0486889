"""Deterministic simulation of threaded Python code.

Every simulated thread is a real thread, but only the one holding the baton
runs. The baton changes hands at synchronisation points and, by seeded choice,
between any two instructions of the code under test. Locks, threads, clocks,
event loops and entropy are replaced. A run is a function of its decision
streams; each run has a process of its own.
"""
import argparse
import asyncio
import collections
import ctypes
import gc
import json
import os
import random
import select
import signal
import sys
import threading
import time
import traceback
import zlib
import _thread

_real_alloc = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_monotonic = time.monotonic
_EPOCH = 1_700_000_000.0
MASK = (1 << 64) - 1


def mix(h, s):
  d = s if isinstance(s, bytes) else s.encode('utf-8', 'surrogatepass')
  return ((h * 0x9E3779B97F4A7C15) ^ (zlib.crc32(d) | (len(d) << 32))) & MASK


class HarnessError(Exception):
  pass


class Run:
  """One simulated execution."""

  def __init__(self, prop, seed, rec=None, trace=False, known=()):
    self.prop, self.seed, self.trace, self.known = prop, seed, trace, known
    self.replay = rec
    self.rec = collections.defaultdict(dict)
    self.idx = collections.Counter()
    self.rng = {}
    self.hash = 1469598103934665603
    self.ihash = 0
    self.lines = []
    self.faults = collections.Counter()
    self.probes = collections.Counter()
    self.states = set()
    self.now = 0.0
    self.threads = []
    self.cur = None
    self.timers = []  # (time, seq, thread)
    self.seq = 0
    self.steps = self.switches = self.accesses = self.ndec = 0
    self.no_preempt = 0
    self.p_switch = self.p_mem = self.p_time = 0.0
    self.opcodes = True
    self.fair = False
    self.done = False
    self.result = None
    self.out_fd = -1
    self.max_steps = 60000

  # ---- decisions
  def _rng(self, s):
    r = self.rng.get(s)
    if r is None:
      r = self.rng[s] = random.Random(f'{self.seed}/{s}')
    return r

  def choose(self, s, n):
    """A value below n; 0 is the simplest."""
    if n <= 1:
      return 0
    i = self.idx[s]
    self.idx[s] = i + 1
    self.ndec += 1
    if self.replay is not None:
      v = self.replay.get(s, {}).get(i, 0) % n
    else:
      v = self._rng(s).randrange(n)
    if v:
      self.rec[s][i] = v
    self.hash = (self.hash * 31 + v + 7) & MASK
    return v

  def rare(self, s, p):
    if p <= 0:
      return False
    i = self.idx[s]
    self.idx[s] = i + 1
    if self.replay is not None:
      v = bool(self.replay.get(s, {}).get(i, 0))
    else:
      v = self._rng(s).random() < p
    if v:
      self.ndec += 1
      self.rec[s][i] = 1
      self.hash = (self.hash * 31 + i + 3) & MASK
    return v

  def rand_bytes(self, n):
    # Not minimised: only distinctness matters.
    r = self._rng('entropy')
    return r.getrandbits(8 * n).to_bytes(n, 'big') if n else b''

  # ---- reports
  def event(self, fmt, *a):
    s = fmt % a if a else fmt
    s = f'{self.now:.3f} t{self.cur.tid if self.cur else 0} {s}'
    self.hash = mix(self.hash, s)
    if self.trace:
      self.lines.append(s)

  def fault(self, name):
    self.faults[name] += 1

  def count(self, name, n=1):
    self.probes[name] += n

  def cover(self, s):
    self.states.add(mix(0, str(s)))

  def check(self, prop, cond, msg, *a):
    if not cond:
      self.violation(prop, msg % a if a else msg)

  def violation(self, prop, msg):
    if self.done:
      return
    if prop not in ('*', self.prop):
      return
    for k in self.known:
      if k in msg:
        self.count('known_finding')
        return
    self.event('VIOLATION %s', msg)
    self.finish('violation', msg)

  def finish(self, kind, msg=''):
    self.done = True
    self.hash = mix(self.hash, msg)
    out = {
        'kind': kind, 'msg': msg, 'hash': f'{self.hash:016x}', 'ihash': self.ihash,
        'faults': self.faults, 'probes': self.probes, 'states': sorted(self.states),
        'steps': self.steps, 'switches': self.switches, 'accesses': self.accesses,
        'ndec': self.ndec, 'sim': self.now, 'trivial': not any(self.rec.values()),
        'rec': {s: d for s, d in self.rec.items() if d} if kind != 'ok' else None,
        'lines': self.lines if self.trace else None,
    }
    b = json.dumps(out).encode()
    try:
      while b:
        b = b[os.write(self.out_fd, b):]
    finally:
      os._exit(0)

  # ---- scheduling
  def runnable(self):
    return [t for t in self.threads if t.state == 'ready']

  def _switch(self, t):
    me = self.cur
    if t is me:
      return
    self.switches += 1
    self.ihash = (self.ihash * 1000003 + t.tid * 31 + self.accesses) & MASK
    self.cur = t
    t.baton.release()
    if me.state != 'dead':
      me.baton.acquire()

  def _step(self):
    self.steps += 1
    if self.steps > self.max_steps:
      if not self.fair:
        self.fair = True
        self.max_steps *= 4
      else:
        self.finish('error', 'the run does not end')

  def point(self, p=None):
    """A place where another thread may run."""
    if self.no_preempt or self.done or self.cur is None:
      return
    self._step()
    if self.fair:
      r = self.runnable()
      self._switch(r[(r.index(self.cur) + 1) % len(r)])
      return
    # A slow thread: time passes while it could run. Not past the bounds the
    # harness gives for progress.
    if self.p_time and self.timers and min(x[0] for x in self.timers) < self.now + 100 and self.rare('time', self.p_time):
      self._fire()
    if not self.rare('sched', self.p_switch if p is None else p):
      return
    r = [t for t in self.runnable() if t is not self.cur]
    if r:
      self._switch(r[self.choose('who', len(r))])

  def access(self):
    if self.no_preempt or self.done:
      return
    self.accesses += 1
    if self.p_mem and not self.fair and self.rare('mem', self.p_mem):
      r = [t for t in self.runnable() if t is not self.cur]
      if r:
        self._step()
        self._switch(r[self.choose('who', len(r))])

  def _fire(self):
    self.timers.sort(key=lambda x: x[:2])
    t0, _, th = self.timers.pop(0)
    self.now = max(self.now, t0)
    if th.state == 'blocked':
      th.state = 'ready'
      th.timed_out = True

  def block(self, timeout=None):
    """Blocks the current thread until woken; True if woken before timeout."""
    me = self.cur
    if self.no_preempt:
      raise HarnessError('blocking inside an atomic section')
    self._step()
    me.timed_out = False
    me.state = 'blocked'
    entry = None
    if timeout is not None:
      self.seq += 1
      entry = (self.now + max(0.0, timeout), self.seq, me)
      self.timers.append(entry)
    self._next()
    if entry in self.timers:
      self.timers.remove(entry)
    return not me.timed_out

  def _next(self):
    while True:
      r = self.runnable()
      if r:
        break
      if not self.timers:
        self.deadlock()
        return
      self._fire()
    t = r[0] if self.fair else r[self.choose('who', len(r))]
    if t is self.cur and t.state != 'dead':
      return
    self._switch(t)

  def deadlock(self):
    w = ', '.join(f'{t.name}:{t.why}' for t in self.threads if t.state == 'blocked')
    self.violation('*', f'deadlock: {w}')
    self.finish('error', f'deadlock: {w}')

  def wake(self, t):
    if t.state == 'blocked':
      t.state = 'ready'

  def sleep(self, s):
    self.cur.why = 'sleep'
    self.block(s)

  def wait_for(self, pred, timeout=None, why='wait'):
    """Blocks the harness until pred() holds."""
    end = None if timeout is None else self.now + timeout
    while not pred():
      if end is not None and self.now >= end:
        return False
      self.cur.why = why
      self.waiters.append(self.cur)
      self.block(None if end is None else end - self.now)
      if self.cur in self.waiters:
        self.waiters.remove(self.cur)
    return True

  waiters = []

  def changed(self):
    for t in self.waiters:
      self.wake(t)
    self.waiters.clear()

  # ---- threads
  def spawn(self, fn, name='', daemon=False):
    t = SimThread(target=fn, name=name, daemon=daemon)
    t.start()
    return t


R = None  # the run of this process


class atomic:
  """Harness code that must not be interrupted."""

  def __enter__(self):
    R.no_preempt += 1

  def __exit__(self, *a):
    R.no_preempt -= 1


def _tracer(frame, event, arg):
  if frame.f_code.co_filename.startswith(TARGET):
    frame.f_trace_opcodes = R.opcodes
    return _local
  return None


def _local(frame, event, arg):
  if event == 'opcode' or event == 'line':
    R.access()
  return _local


TARGET = '\0'


class SimThread:
  """Stands for threading.Thread."""

  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
    self._target, self._args, self._kwargs = target, args, kwargs or {}
    self.daemon = bool(daemon)
    self.tid = -1
    self.name = name or 'thread'
    self.state = 'new'
    self.why = ''
    self.timed_out = False
    self.baton = _real_alloc()
    self.baton.acquire()
    self._joiners = []
    self.ident = None

  def run(self):
    if self._target:
      self._target(*self._args, **self._kwargs)

  def start(self):
    if self.state != 'new':
      raise RuntimeError('threads can only be started once')
    self.tid = len(R.threads)
    R.threads.append(self)
    self.state = 'ready'
    _real_start(self._boot, ())
    R.point()

  def _boot(self):
    self.baton.acquire()
    self.ident = _thread.get_ident()
    sys.settrace(_tracer)
    try:
      self.run()
    except SystemExit:
      pass
    except HarnessError as e:
      R.finish('error', ''.join(traceback.format_exception(e))[-1500:])
    except BaseException as e:  # pylint: disable=broad-except
      sys.settrace(None)
      R.thread_failed(self, e)
    sys.settrace(None)
    self.state = 'dead'
    for t in self._joiners:
      R.wake(t)
    R.changed()
    R._next()

  def join(self, timeout=None):
    if self.state == 'new':
      raise RuntimeError('cannot join thread before it is started')
    end = None if timeout is None else R.now + timeout
    while self.state != 'dead':
      if end is not None and R.now >= end:
        return
      self._joiners.append(R.cur)
      R.cur.why = f'join {self.name}'
      R.block(None if end is None else end - R.now)

  def is_alive(self):
    return self.state not in ('new', 'dead')

  def getName(self):
    return self.name

  def setDaemon(self, d):
    self.daemon = d


def _thread_failed(self, t, e):
  tb = ''.join(traceback.format_exception(e))
  self.event('thread %s failed: %r', t.name, e)
  if type(e).__name__ in ('DecodeError', 'BadGzipFile'):
    self.violation('*', f'an answer cannot be read: {e}')
  elif any(TARGET in l for l in tb.splitlines()):
    self.violation('*', f'thread {t.name} ended with {type(e).__name__}: {e}')
  else:
    self.finish('error', tb[-1500:])


Run.thread_failed = _thread_failed


class SimLock:
  """Stands for threading.Lock."""

  def __init__(self):
    self._held = False
    self._q = []

  def acquire(self, blocking=True, timeout=-1):
    if R is None:
      self._held = True
      return True
    R.point()
    end = None if timeout is None or timeout < 0 else R.now + timeout
    while self._held:
      if not blocking or (end is not None and R.now >= end):
        return False
      self._q.append(R.cur)
      R.cur.why = 'lock'
      R.block(None if end is None else end - R.now)
      if R.cur in self._q:
        self._q.remove(R.cur)
    self._held = True
    return True

  def release(self):
    if not self._held:
      raise RuntimeError('release unlocked lock')
    self._held = False
    for t in self._q:
      R.wake(t)
    self._q.clear()
    if R is not None:
      R.point()

  def locked(self):
    return self._held

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def _at_fork_reinit(self):
    self._held = False


class SimRLock:

  def __init__(self):
    self._l = SimLock()
    self._owner = None
    self._n = 0

  def acquire(self, blocking=True, timeout=-1):
    if R is None:
      return True
    if self._owner is R.cur and self._n:
      self._n += 1
      return True
    if self._l.acquire(blocking, timeout):
      self._owner, self._n = R.cur, 1
      return True
    return False

  def release(self):
    if R is None:
      return
    if self._owner is not R.cur or not self._n:
      raise RuntimeError('cannot release un-acquired lock')
    self._n -= 1
    if not self._n:
      self._owner = None
      self._l.release()

  def __enter__(self):
    self.acquire()
    return True

  def __exit__(self, *a):
    self.release()

  def _release_save(self):
    s = (self._n, self._owner)
    self._n, self._owner = 0, None
    self._l.release()
    return s

  def _acquire_restore(self, s):
    self._l.acquire()
    self._n, self._owner = s

  def _is_owned(self):
    return self._owner is R.cur and self._n > 0


class DetSet(set):
  """A set whose iteration order does not depend on addresses."""

  def __iter__(self):
    items = list(super().__iter__())
    items.sort(key=_order)
    n = len(self)
    for x in items:
      if len(self) != n:
        raise RuntimeError('Set changed size during iteration')
      yield x

  def __reduce__(self):
    return (DetSet, (list(self),))

  def add(self, x):
    _order(x)
    super().add(x)

  def pop(self):
    for x in self:
      self.remove(x)
      return x
    raise KeyError('pop from an empty set')


_serial = {}
_keep = []


def _order(x):
  if isinstance(x, (str, bytes, int, float, tuple)):
    return (0, str(x))
  k = _serial.get(id(x))
  if k is None:
    k = _serial[id(x)] = len(_serial)
    _keep.append(x)
  return (1, f'{k:09d}')


class _Selector:

  def __init__(self, loop):
    self.loop = loop

  def select(self, timeout=None):
    loop = self.loop
    R.point()
    if not loop._sim_woken and (timeout is None or timeout > 0):
      loop._sim_waiter = R.cur
      R.cur.why = 'event loop'
      R.block(timeout)
      loop._sim_waiter = None
    loop._sim_woken = False
    return []

  def close(self):
    pass


class SimLoop(asyncio.BaseEventLoop):
  """An event loop that sleeps in the simulator."""

  def __init__(self):
    super().__init__()
    self._selector = _Selector(self)
    self._sim_woken = False
    self._sim_waiter = None
    self._clock_resolution = 1e-9

  def _process_events(self, events):
    pass

  def _write_to_self(self):
    self._sim_woken = True
    if self._sim_waiter is not None:
      R.wake(self._sim_waiter)
    R.point()

  def time(self):
    return R.now


def install():
  """Puts the simulated primitives in place (in the run's process)."""
  threading.Lock = threading._allocate_lock = _thread_alloc
  threading.RLock = SimRLock
  threading.Thread = SimThread
  threading.current_thread = threading.currentThread = lambda: R.cur
  time.time = lambda: _EPOCH + (R.now if R else 0.0)
  time.time_ns = lambda: int((_EPOCH + R.now) * 1e9)
  time.monotonic = time.perf_counter = lambda: R.now
  time.sleep = lambda s: R.sleep(s)
  os.urandom = random._urandom = lambda n: R.rand_bytes(n)


def _thread_alloc():
  return SimLock()


# ---------------------------------------------------------------- driver
def run_child(fd, fn, prop, seed, rec, trace, known, setup):
  global R
  gc.disable()
  R = Run(prop, seed, rec, trace, known)
  R.out_fd = fd
  R.waiters = []
  _serial.clear()
  _keep.clear()
  random.seed(seed)
  main = SimThread(name='main')
  main.tid = 0
  main.state = 'ready'
  R.threads.append(main)
  R.cur = main
  try:
    k = R.choose('conf', 4)
    R.p_switch = [0.0, 0.02, 0.15, 0.5][k]
    R.p_mem = [0.0, 0.0, 0.003, 0.02, 0.1][R.choose('conf', 5)]
    R.opcodes = bool(R.choose('conf', 2))
    R.p_time = [0.0, 0.0, 0.01, 0.1][R.choose('conf', 4)]
    setup()
    sys.settrace(_tracer)
    fn()
    sys.settrace(None)
    R.finish('ok')
  except BaseException as e:  # pylint: disable=broad-except
    sys.settrace(None)
    tb = ''.join(traceback.format_exception(e))
    R.finish('error', tb[-3000:])


_worker_fds = []
_libc = ctypes.CDLL(None)


def one(fn, prop, seed, rec=None, trace=False, known=(), setup=lambda: None, timeout=20):
  """Runs one seed in a process of its own."""
  r, w = os.pipe()
  me = os.getpid()
  pid = os.fork()
  if pid == 0:
    os.close(r)
    for f in _worker_fds:
      os.close(f)
    signal.alarm(int(timeout) + 5)
    _libc.prctl(1, signal.SIGKILL)
    if os.getppid() != me:
      os._exit(98)
    try:
      run_child(w, fn, prop, seed, rec, trace, known, setup)
    finally:
      os._exit(99)
  os.close(w)
  buf = b''
  end = _real_monotonic() + timeout
  while True:
    left = end - _real_monotonic()
    if left <= 0:
      os.kill(pid, signal.SIGKILL)
      break
    ready, _, _ = select.select([r], [], [], left)
    if ready:
      d = os.read(r, 1 << 16)
      if not d:
        break
      buf += d
  os.close(r)
  _, st = os.waitpid(pid, 0)
  try:
    return json.loads(buf)
  except ValueError:
    return {'kind': 'error', 'msg': f'run process ended with status {st}', 'hash': '0', 'ihash': 0,
            'faults': {}, 'probes': {}, 'states': [], 'steps': 0, 'switches': 0, 'accesses': 0,
            'ndec': 0, 'sim': 0, 'trivial': True, 'rec': None, 'lines': None}


def norm(rec):
  return {s: {int(i): v for i, v in d.items()} for s, d in (rec or {}).items()}


def minimise(go, rec, msg, budget):
  """Removes decisions while the same violation remains."""
  end = _real_monotonic() + budget
  key = msg.split(' (')[0]

  def still(c):
    r = go(c)
    return r if r['kind'] == 'violation' and r['msg'].split(' (')[0] == key else None
  best = None
  for s in list(rec):
    c = {k: v for k, v in rec.items() if k != s}
    r = still(c)
    if r:
      rec, best = c, r
  items = [(s, i) for s, d in rec.items() for i in sorted(d)]
  n = 2
  while len(items) >= 1 and _real_monotonic() < end:
    size = max(1, len(items) // n)
    shrunk = False
    for a in range(0, len(items), size):
      if _real_monotonic() > end:
        break
      drop = set(items[a:a + size])
      c = {s: {i: v for i, v in d.items() if (s, i) not in drop} for s, d in rec.items()}
      r = still(c)
      if r:
        rec, best = c, r
        items = [x for x in items if x not in drop]
        shrunk = True
        break
    if not shrunk:
      if size == 1:
        break
      n = min(len(items), n * 2)
    else:
      n = max(2, n - 1)
  return rec, best


def main(harness, real, stub, runs, setup, prepare):
  """runs: property -> function; prepare: imports, once per process."""
  global TARGET
  ap = argparse.ArgumentParser()
  for o in ('--property', '--harness', '--out', '--replay-out', '--replay'):
    ap.add_argument(o)
  ap.add_argument('--seed', type=int, default=1)
  ap.add_argument('--seconds', type=float, default=10)
  ap.add_argument('--max-runs', type=int, default=0)
  ap.add_argument('--workers', type=int, default=8)
  ap.add_argument('--known', action='append', default=[])
  ap.add_argument('--trace', action='store_true')
  a = ap.parse_args()
  if not _libc.personality(0xffffffff) & 0x0040000 and not os.environ.get('SIM_PERS'):
    _libc.personality(0x0040000)
    os.environ['SIM_PERS'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
  TARGET = prepare()
  gc.collect()
  gc.freeze()
  if a.replay:
    d = json.load(open(a.replay))
    r = one(runs[d['property']], d['property'], d['seed'], norm(d['decisions']), a.trace, a.known, setup)
    for l in r['lines'] or []:
      print(l)
    ok = r['kind'] == 'violation' and r['hash'] == d['hash']
    print(f"{r['kind']}: {r['msg']}")
    print('replay: reproduced' if ok else f"replay: NOT reproduced (hash {r['hash']})")
    sys.exit(1 if ok else 0)
  prop = a.property
  fn = runs[prop]
  t0 = _real_monotonic()
  end = t0 + a.seconds
  base = a.seed * 1_000_000_000
  pipes = []
  for w in range(a.workers):
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
      os.close(rfd)
      for p in pipes:
        os.close(p[0])
      _worker(wfd, w, a, fn, prop, base, end, setup)
      os._exit(0)
    os.close(wfd)
    pipes.append((rfd, pid, bytearray()))
  tot = collections.Counter()
  faults, probes = collections.Counter(), collections.Counter()
  states, inter, traces = set(), set(), set()
  samples, errors, mism = [], [], []
  viol = None
  simt = 0.0
  live = {p[0]: p for p in pipes}

  def take(line):
    nonlocal simt, viol
    m = json.loads(line)
    r = m['r']
    tot['runs'] += 1
    for k in ('steps', 'switches', 'accesses', 'ndec'):
      tot[k] += r[k]
    simt += r['sim']
    faults.update(r['faults'])
    probes.update(r['probes'])
    states.update(r['states'])
    inter.add(r['ihash'])
    if not r['trivial']:
      traces.add(r['hash'])
    if m.get('det') is not None:
      tot['det'] += 1
      if not m['det']:
        tot['mism'] += 1
        mism.append(str(m['seed']))
    if len(samples) < 5:
      samples.append(f"seed={m['seed']} steps={r['steps']} decisions={r['ndec']} sim_s={r['sim']:.3f} "
                     f"trace={r['hash']} faults={dict(r['faults'])}")
    if r['kind'] == 'error' and len(errors) < 5:
      errors.append(f"seed {m['seed']}: {r['msg']}")
    if r['kind'] == 'violation' and m.get('det') and (viol is None or m['seed'] < viol[0]):
      viol = (m['seed'], r)

  while live:
    ready, _, _ = select.select(list(live), [], [], 60)
    for fd in ready:
      p = live[fd]
      d = os.read(fd, 1 << 16)
      if not d:
        os.close(fd)
        del live[fd]
        os.waitpid(p[1], 0)
        continue
      p[2].extend(d)
      while b'\n' in p[2]:
        line, _, rest = bytes(p[2]).partition(b'\n')
        p[2][:] = rest
        take(line)
    if viol or errors:
      for fd, p in list(live.items()):
        try:
          os.kill(p[1], signal.SIGTERM)
        except ProcessLookupError:
          pass
  verdict = None
  if viol:
    seed, r = viol
    rec = norm(r['rec'])
    go = lambda c: one(fn, prop, seed, c, False, a.known, setup)
    before = sum(map(len, rec.values()))
    rec2, best = minimise(go, rec, r['msg'], 40)
    fin = go(rec2)
    if fin['kind'] != 'violation':
      rec2, fin = rec, r
    verdict = f"{seed}: {fin['msg']}"
    tr = one(fn, prop, seed, rec2, True, a.known, setup)
    with open(a.replay_out, 'w') as f:
      json.dump({'property': prop, 'harness': a.harness, 'seed': seed, 'violation': fin['msg'],
                 'hash': fin['hash'], 'decisions_before': before,
                 'decisions': rec2, 'trace': tr['lines']}, f, indent=0)
  out = {
      'runs': tot['runs'], 'distinct_traces': len(traces), 'samples': samples,
      'wall_s': round(_real_monotonic() - t0, 3), 'sim_s': simt, 'faults': dict(sorted(faults.items())),
      'probes': dict(sorted(probes.items())), 'distinct_interleavings': len(inter),
      'distinct_states': len(states), 'steps': tot['steps'], 'switches': tot['switches'],
      'accesses': tot['accesses'], 'decisions': tot['ndec'], 'det_checks': tot['det'],
      'det_mismatch': tot['mism'], 'real_components': real, 'stub_components': stub,
      'nondeterministic_seeds': mism, 'errors': [] if viol else errors, 'violation': verdict,
  }
  with open(a.out, 'w') as f:
    json.dump(out, f)
  sys.exit(1 if viol else 0)


def _worker(fd, w, a, fn, prop, base, end, setup):
  i = w
  n = 0
  _worker_fds.append(fd)
  _libc.prctl(1, signal.SIGKILL)
  while _real_monotonic() < end:
    if a.max_runs and i >= a.max_runs:
      break
    seed = base + i
    r = one(fn, prop, seed, None, False, a.known, setup)
    m = {'seed': seed, 'r': r}
    n += 1
    if r['kind'] == 'violation' or n % 40 == 1:
      r2 = one(fn, prop, seed, None, False, a.known, setup)
      m['det'] = r2['hash'] == r['hash']
    if r['kind'] == 'violation' and m['det']:
      r3 = one(fn, prop, seed, norm(r['rec']), False, a.known, setup)
      m['det'] = r3['hash'] == r['hash']
    b = (json.dumps(m) + '\n').encode()
    while b:
      b = b[os.write(fd, b):]
    if r['kind'] != 'ok':
      break
    i += a.workers

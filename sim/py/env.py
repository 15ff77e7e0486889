"""The demo server's surroundings: stubs of libraries, simulated network."""
import builtins
import enum
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import shutil
import socket
import subprocess
import sys
import tempfile
import types

import rt

REPO = os.environ.get('SIM_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
PROTOS = os.path.join(os.path.dirname(HERE), 'protos')
AGG = 'tensorflow_federated.cc.core.impl.aggregation'


# ---------------------------------------------------------------- imports
class _Loader(importlib.machinery.SourceFileLoader):

  def exec_module(self, module):
    module.__dict__['__builtins__'] = dict(builtins.__dict__, set=rt.DetSet)
    code = compile(open(self.path, 'rb').read(), self.path, 'exec', dont_inherit=True)
    exec(code, module.__dict__)  # pylint: disable=exec-used


class _Finder(importlib.abc.MetaPathFinder):

  def find_spec(self, name, path, target=None):
    if not name.startswith('fcp.demo.'):
      return None
    f = os.path.join(REPO, *name.split('.')) + '.py'
    if not os.path.exists(f):
      return None
    return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))


def _pkg(name, paths):
  m = types.ModuleType(name)
  m.__path__ = paths
  sys.modules[name] = m
  if '.' in name:
    p, _, n = name.rpartition('.')
    setattr(sys.modules[p], n, m)
  return m


def _mod(name, **attrs):
  p, _, n = name.rpartition('.')
  if p and p not in sys.modules:
    _mod(p)
  m = sys.modules.get(name) or types.ModuleType(name)
  m.__path__ = getattr(m, '__path__', [])
  sys.modules[name] = m
  if p:
    setattr(sys.modules[p], n, m)
  for k, v in attrs.items():
    setattr(m, k, v)
  return m


def prepare():
  """Generates the message classes and imports the code under test."""
  import absl.logging  # pylint: disable=g-import-not-at-top,unused-import
  import asyncio, http.server, socketserver, ssl, queue, uuid, gzip  # noqa: E401
  import google.api.annotations_pb2  # noqa: F401
  import google.longrunning.operations_pb2  # noqa: F401
  import google.rpc.code_pb2  # noqa: F401
  absl.logging.set_verbosity(absl.logging.FATAL)
  absl.logging.set_stderrthreshold('fatal')
  site = os.path.dirname(os.path.dirname(os.path.dirname(google.api.annotations_pb2.__file__)))
  base = os.environ.get('SIM_BUILD', os.path.join(os.path.dirname(os.path.dirname(HERE)), 'build'))
  os.makedirs(base, exist_ok=True)
  gen = tempfile.mkdtemp(prefix='pygen-', dir=base)
  try:
    todo, seen = [
        'fcp/protos/plan.proto', 'fcp/protos/population_eligibility_spec.proto',
        'fcp/protos/federatedcompute/aggregations.proto',
        'fcp/protos/federatedcompute/task_assignments.proto',
        'fcp/protos/federatedcompute/eligibility_eval_tasks.proto',
        'fcp/protos/federatedcompute/common.proto',
        f'{AGG.replace(".", "/")}/protocol/configuration.proto',
        f'{AGG.replace(".", "/")}/protocol/aggregation_protocol_messages.proto'], {}
    while todo:
      f = todo.pop()
      if f in seen or f.startswith('google/'):
        continue
      root = REPO if os.path.exists(f'{REPO}/{f}') else PROTOS
      seen[f] = root
      for l in open(f'{root}/{f}'):
        if l.startswith('import '):
          todo.append(l.split('"')[1])
    subprocess.run([sys.executable, '-m', 'grpc_tools.protoc', f'-I{REPO}', f'-I{PROTOS}', f'-I{site}',
                    f'--python_out={gen}'] + sorted(seen), check=True, stderr=subprocess.DEVNULL)
    for d, _, _ in os.walk(gen):
      open(os.path.join(d, '__init__.py'), 'a').close()
    sys.path.insert(0, gen)
    _pkg('fcp', [f'{gen}/fcp'])
    _pkg('fcp.demo', [])
    _pkg('tensorflow_federated', [f'{gen}/tensorflow_federated'])
    _pkg('tensorflow', [f'{gen}/tensorflow'])
    sys.meta_path.insert(0, _Finder())
    stubs()
    import fcp.protos.plan_pb2  # noqa: F401
    for m in ('configuration_pb2', 'aggregation_protocol_messages_pb2'):
      importlib.import_module(f'{AGG}.protocol.{m}')
    importlib.import_module(f'{AGG}.core.tensor_pb2')
    rt.install()
    for m in ('http_actions', 'media', 'aggregations', 'eligibility_eval_tasks', 'task_assignments', 'server'):
      importlib.import_module(f'fcp.demo.{m}')
  finally:
    shutil.rmtree(gen, ignore_errors=True)
  return f'{REPO}/fcp/demo/'


# ---------------------------------------------------------------- stubs
class StatusCode(enum.Enum):
  OK = 0
  CANCELLED = 1
  UNKNOWN = 2
  INVALID_ARGUMENT = 3
  DEADLINE_EXCEEDED = 4
  NOT_FOUND = 5
  ALREADY_EXISTS = 6
  PERMISSION_DENIED = 7
  RESOURCE_EXHAUSTED = 8
  FAILED_PRECONDITION = 9
  ABORTED = 10
  OUT_OF_RANGE = 11
  UNIMPLEMENTED = 12
  INTERNAL = 13
  UNAVAILABLE = 14
  DATA_LOSS = 15
  UNAUTHENTICATED = 16

  def __int__(self):
    return self.value

  def __eq__(self, o):
    return self.value == (o.value if isinstance(o, StatusCode) else o)

  def __hash__(self):
    return self.value


class Status:

  def __init__(self, code=StatusCode.OK, message=''):
    self._c, self._m = code, message

  @staticmethod
  def OkStatus():
    return Status()

  def code(self):
    return self._c

  def code_int(self):
    return self._c.value

  def raw_code(self):
    return self._c.value

  def message(self):
    return self._m

  def ok(self):
    return self._c.value == 0


class StatusNotOk(Exception):

  def __init__(self, status):
    super().__init__(status.message())
    self.status = status
    self.code = status.code().value
    self.message = status.message()


def _from_int(i):
  try:
    return StatusCode(i)
  except ValueError:
    return StatusCode.UNKNOWN


class Counts:

  def __init__(self):
    self.num_clients_completed = self.num_clients_failed = self.num_clients_pending = 0
    self.num_clients_aborted = self.num_inputs_aggregated_and_included = 0
    self.num_inputs_aggregated_and_pending = self.num_inputs_discarded = 0


class Protocol:
  """A one-shard aggregation whose result lists the inputs it includes."""
  faults = None  # set by the harness: callable(protocol, name) -> bool

  def __init__(self, config):
    self.config = config
    self.state = 'created'
    self.clients = []  # 'pending' | 'completed' | 'failed' | 'aborted' | 'discarded'
    self.out = []
    self.inputs = []
    self.calls = []
    self.tid = rt.R.cur.tid
    ALL.append(self)

  def _bad(self, code, msg):
    raise StatusNotOk(Status(code, msg))

  def _need(self):
    if self.state != 'started':
      self._bad(StatusCode.FAILED_PRECONDITION, f'state is {self.state}')

  def _close(self, i, state, code, msg=''):
    self.clients[i] = state
    self.out[i].append((code, msg))

  def Start(self, n):
    rt.R.point()
    if self.state != 'created':
      self._bad(StatusCode.FAILED_PRECONDITION, 'started twice')
    self.state = 'started'
    self._add(n)

  def _add(self, n):
    first = len(self.clients)
    self.clients += ['pending'] * n
    self.out += [[] for _ in range(n)]
    return first

  def AddClients(self, n):
    rt.R.point()
    self._need()
    return self._add(n)

  def ReceiveClientMessage(self, i, m):
    rt.R.point()
    self._need()
    if not 0 <= i < len(self.clients):
      self._bad(StatusCode.INVALID_ARGUMENT, 'no such client')
    if self.clients[i] != 'pending':
      return
    data = m.simple_aggregation.input.inline_bytes
    if Protocol.faults and Protocol.faults(self, 'aggregation_error'):
      for k, s in enumerate(self.clients):
        if s == 'pending':
          self._close(k, 'aborted', StatusCode.ABORTED.value)
      self.state = 'aborted'
      self._bad(StatusCode.INTERNAL, 'aggregation broke down')
    if data.startswith(b'!'):
      self._close(i, 'discarded', StatusCode.INVALID_ARGUMENT.value, 'cannot be parsed')
      return
    self.inputs.append((i, data))
    self._close(i, 'completed', 0)
    rt.R.point()

  def CloseClient(self, i, message, code):
    rt.R.point()
    self._need()
    if not 0 <= i < len(self.clients):
      self._bad(StatusCode.INVALID_ARGUMENT, 'no such client')
    if self.clients[i] == 'pending':
      self._close(i, 'failed' if code else 'completed', code, message)

  def Complete(self):
    rt.R.point()
    self._need()
    if Protocol.faults and Protocol.faults(self, 'aggregation_error'):
      self.state = 'aborted'
      self._bad(StatusCode.INTERNAL, 'aggregation broke down')
    for i, s in enumerate(self.clients):
      if s == 'pending':
        self._close(i, 'aborted', StatusCode.ABORTED.value)
    self.state = 'completed'

  def Abort(self):
    rt.R.point()
    self._need()
    for i, s in enumerate(self.clients):
      if s == 'pending':
        self._close(i, 'aborted', StatusCode.ABORTED.value)
    self.state = 'aborted'

  def GetResult(self):
    rt.R.point()
    if self.state != 'completed':
      self._bad(StatusCode.FAILED_PRECONDITION, f'state is {self.state}')
    return b'\n'.join(sorted(d for _, d in self.inputs))

  def PollServerMessage(self, i):
    rt.R.point()
    if not 0 <= i < len(self.clients):
      self._bad(StatusCode.INVALID_ARGUMENT, 'no such client')
    if not self.out[i]:
      return None
    code, msg = self.out[i].pop(0)
    m = sys.modules[f'{AGG}.protocol.aggregation_protocol_messages_pb2'].ServerMessage()
    m.simple_aggregation.close_message.code = code
    m.simple_aggregation.close_message.message = msg
    return m

  def GetStatus(self):
    rt.R.point()
    c = Counts()
    for s in self.clients:
      if s == 'completed':
        c.num_clients_completed += 1
      elif s == 'failed':
        c.num_clients_failed += 1
      elif s == 'pending':
        c.num_clients_pending += 1
      elif s == 'aborted':
        c.num_clients_aborted += 1
      else:
        c.num_clients_failed += 1
        c.num_inputs_discarded += 1
    c.num_inputs_aggregated_and_included = len(self.inputs)
    return c


ALL = []


class PlanSession:
  """Stands for the TensorFlow computations before and after aggregation."""

  def __init__(self, plan, server_checkpoint):
    if len(plan.phase) != 1:
      raise ValueError('plan must contain exactly 1 phase.')
    self._plan, self._ckpt = plan, server_checkpoint
    self.open = False

  def __enter__(self):
    self.open = True
    return self

  def __exit__(self, *a):
    self.open = False

  @property
  def client_plan(self):
    return b'plan ' + self._ckpt

  @property
  def client_checkpoint(self):
    return b'checkpoint ' + self._ckpt

  @property
  def slices(self):
    return {'s': [b'slice0 ' + self._ckpt, b'slice1 ' + self._ckpt]}

  def finalize(self, result):
    assert self.open
    return b'final ' + self._ckpt + b'\n' + result


def stubs():
  codes = {c.name: c for c in StatusCode}
  dtypes = types.SimpleNamespace(as_dtype=lambda d: d)
  _mod('tensorflow', dtypes=dtypes, float32=1, double=2, string=7, int32=3, int64=9, uint64=23)
  _mod('pybind11_abseil')
  _mod('pybind11_abseil.status', StatusCode=StatusCode, Status=Status, StatusNotOk=StatusNotOk,
       StatusCodeFromInt=_from_int,
       **{c.lower() + '_error': (lambda m, _c=v: Status(_c, m)) for c, v in codes.items()})
  for p in ('cc', 'cc.core', 'cc.core.impl', 'cc.core.impl.aggregation',
            'cc.core.impl.aggregation.protocol', 'cc.core.impl.aggregation.core'):
    importlib.import_module('tensorflow_federated.' + p)
  _mod(f'{AGG}.protocol.python')
  _mod(f'{AGG}.protocol.python.aggregation_protocol', AggregationProtocol=Protocol)
  _mod(f'{AGG}.tensorflow')
  _mod(f'{AGG}.tensorflow.python')
  _mod(f'{AGG}.tensorflow.python.aggregation_protocols', create_simple_aggregation_protocol=Protocol)
  _mod('fcp.demo.plan_utils', Session=PlanSession)


# ---------------------------------------------------------------- network
class Listener:
  """Stands for a listening socket."""

  def __init__(self, *a, **k):
    self.addr = None

  def setsockopt(self, *a):
    pass

  def bind(self, addr):
    self.addr = addr

  def getsockname(self):
    return self.addr

  def listen(self, *a):
    pass

  def close(self):
    pass

  def fileno(self):
    return -1


class Conn:
  """The server's end of one connection."""

  def __init__(self, data, slow=0.0, gone_after=None):
    self.data, self.pos = data, 0
    self.slow, self.gone_after = slow, gone_after
    self.sent = b''
    self.closed = False
    self.wr_down = False
    self._timeout = None

  # reading side
  def makefile(self, mode='r', *a, **k):
    if 'w' in mode:
      return _Writer(self)
    return self

  def _arrive(self):
    rt.R.point()
    if self.slow and rt.R.rare('net', 0.3):
      rt.R.sleep(self.slow)

  def readline(self, limit=-1):
    self._arrive()
    e = self.data.find(b'\n', self.pos)
    e = len(self.data) if e < 0 else e + 1
    if limit >= 0:
      e = min(e, self.pos + limit)
    r = self.data[self.pos:e]
    self.pos = e
    return r

  def read(self, n=-1):
    self._arrive()
    e = len(self.data) if n is None or n < 0 else min(len(self.data), self.pos + n)
    r = self.data[self.pos:e]
    self.pos = e
    return r

  def recv(self, n, *a):
    return self.read(min(n, 1 + rt.R.choose('net', 4096)))

  def readinto(self, b):
    r = self.read(len(b))
    b[:len(r)] = r
    return len(r)

  def readable(self):
    return True

  def flush(self):
    pass

  # writing side
  def sendall(self, b):
    rt.R.point()
    if self.gone_after is not None and len(self.sent) >= self.gone_after:
      raise BrokenPipeError('peer gone')
    if self.wr_down:
      raise BrokenPipeError('shut down')
    self.sent += bytes(b)

  def send(self, b, *a):
    self.sendall(b)
    return len(b)

  def settimeout(self, t):
    self._timeout = t

  def setsockopt(self, *a):
    pass

  def shutdown(self, how):
    self.wr_down = True

  def close(self):
    # makefile() shares this object; the socket is closed after shutdown.
    if self.wr_down and not self.closed:
      self.closed = True
      rt.R.changed()

  def fileno(self):
    return -1


class _Writer:

  def __init__(self, c):
    self.c = c
    self.closed = False

  def write(self, b):
    self.c.sendall(b)
    return len(b)

  def flush(self):
    pass

  def close(self):
    self.closed = True


class Reply:

  def __init__(self, raw):
    head, _, self.body = raw.partition(b'\r\n\r\n')
    lines = head.split(b'\r\n')
    p = lines[0].split(b' ', 2)
    self.ok = len(p) >= 2 and p[0].startswith(b'HTTP/') and p[1].isdigit()
    self.status = int(p[1]) if self.ok else 0
    self.headers = {}
    self.repeats = 0
    for l in lines[1:]:
      k, _, v = l.partition(b':')
      k = k.decode('latin1').lower()
      self.repeats += k in self.headers
      self.headers[k] = v.strip().decode('latin1')


class Net:
  """Carries requests to the server, with faults."""

  def __init__(self, server, prop):
    self.server, self.prop = server, prop
    self.p_lost = self.p_rlost = self.p_cut = self.p_dup = self.p_gone = 0.0
    self.slow = 0.0
    self.n = 0

  def swarm(self):
    R = rt.R
    pick = lambda v: v if R.choose('conf', 3) == 1 else 0.0
    self.p_lost, self.p_rlost = pick(0.05), pick(0.05)
    self.p_cut, self.p_dup, self.p_gone = pick(0.1), pick(0.1), pick(0.05)
    self.slow = [0.0, 0.1, 5.0][R.choose('conf', 3)]

  def raw(self, data, cut=False, gone=None):
    """Delivers bytes; returns what came back."""
    R = rt.R
    c = Conn(data, self.slow, gone)
    self.n += 1
    self.server.process_request(c, ('198.51.100.7', 40000 + self.n))
    R.check(self.prop, R.wait_for(lambda: c.closed, 100000, 'connection'), 'a connection was never closed')
    return c.sent

  def request(self, method, path, body=None, headers=(), quiet=False):
    """Returns (delivered times, whole, Reply or None)."""
    R = rt.R
    lines = [f'{method} {path} HTTP/1.1', 'Host: demo']
    lines += [f'{k}: {v}' for k, v in headers]
    if body is not None and not any(k.lower() == 'content-length' for k, _ in headers):
      lines.append(f'Content-Length: {len(body)}')
    data = '\r\n'.join(lines).encode('latin1') + b'\r\n\r\n'
    if R.rare('net', self.p_lost):
      R.fault('request_lost')
      return 0, False, None
    cut = False
    if body:
      if R.rare('net', self.p_cut):
        cut = True
        R.fault('connection_cut')
        data += body[:R.choose('net', len(body))]
      else:
        data += body
    gone = None
    if R.rare('net', self.p_gone):
      R.fault('peer_gone')
      gone = R.choose('net', 2) * 20
    times = 1
    if R.rare('net', self.p_dup):
      R.fault('request_duplicated')
      times = 2
      self._spawn_dup(data)
    raw = self.raw(data, cut, gone)
    if gone is not None:
      return times, not cut, None
    r = Reply(raw)
    R.check(self.prop, bool(raw), '%s %s was not answered', method, self.shown(path))
    R.check(self.prop, r.ok, '%s %s: not a response', method, self.shown(path))
    cl = r.headers.get('content-length')
    R.check(self.prop, cl is None or method == 'HEAD' or int(cl) == len(r.body),
            '%s %s: announced %s bytes, sent %d', method, self.shown(path), cl, len(r.body))
    if not quiet:
      R.event('%s %s -> %d', method, path, r.status)
    if R.rare('net', self.p_rlost):
      R.fault('response_lost')
      return times, not cut, None
    return times, not cut, r

  def shown(self, path):
    """A path without identifiers, for messages."""
    p = path.split('/')
    return '/'.join(x for x in p[:3]) + (':' + path.rsplit(':', 1)[1].split('?')[0] if ':' in path else '')

  dups = None

  def _spawn_dup(self, data):
    R = rt.R
    def go():
      R.sleep([0, 0.5, 20][R.choose('net', 3)])
      self.raw(data)
    t = R.spawn(go, 'duplicate')
    if self.dups is not None:
      self.dups.append(t)


def patch():
  """Per run, before the code under test starts."""
  sys.stderr = io.StringIO()
  socket.socket = Listener
  socket.getfqdn = lambda h='': h or 'localhost'
  del ALL[:]
  Protocol.faults = None

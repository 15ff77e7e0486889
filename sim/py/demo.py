"""The demo server under simulated threads, network and aggregation library."""
import gzip
import http.server
import os
import socketserver
import sys
import urllib.parse

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import env  # noqa: E402
import rt  # noqa: E402

REAL = ['fcp/demo/http_actions.py', 'fcp/demo/media.py', 'fcp/demo/aggregations.py',
        'fcp/demo/task_assignments.py', 'fcp/demo/eligibility_eval_tasks.py', 'fcp/demo/server.py',
        'Python http.server and socketserver']
STUB = ['sockets and network (simulated)', 'threading, time, asyncio loop (simulated)',
        'aggregation library (reference stub)', 'TensorFlow plan execution (stub)', 'entropy source']


class Env:
  """Names of the code under test, once imported."""


def load():
  t = env.prepare()
  from fcp.demo import aggregations, http_actions, media, server  # noqa
  from fcp.protos import plan_pb2, population_eligibility_spec_pb2
  from fcp.protos.federatedcompute import (aggregations_pb2, common_pb2, eligibility_eval_tasks_pb2,
                                           task_assignments_pb2)
  from google.longrunning import operations_pb2
  for k, v in list(locals().items()):
    setattr(Env, k, v)
  return t


def choose(s, n):
  return rt.R.choose(s, n)


_clock = [0]


def tick():
  _clock[0] += 1
  return _clock[0]


def make_server(*services):
  class S(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True
  return S(('demo', 80), Env.http_actions.create_handler(*services))


def some_bytes(s='data'):
  k = choose(s, 5)
  if k == 0:
    return b''
  if k == 1:
    return bytes([choose(s, 256) for _ in range(1 + choose(s, 20))])
  if k == 2:
    return b'x' * choose(s, 3000)
  if k == 3:
    return b'\x1f\x8b\x08' + bytes([choose(s, 256) for _ in range(5)])
  return b'payload-%d' % choose(s, 1000)


# ---------------------------------------------------------------- F01
TEXTS = ['a', 'b c', 'x/y', 'q?z', '50%', 'a:start', 'é', '', 'Ω:submit', '{a}', 'n' * 200, '.', '+', 'a&b=c', '%41']


def text():
  return TEXTS[choose('data', len(TEXTS))] + (str(choose('data', 100)) if choose('data', 2) else '')


def run_f01():
  R, A = rt.R, Env.http_actions
  calls = {}   # request id -> list of (kind, args, body)
  plan = {}    # request id -> outcome
  check = lambda c, m, *a: R.check('F01', c, m, *a)

  def handle(kind, rid, args, body):
    with rt.atomic():
      calls.setdefault(rid, []).append((kind, args, body))
      o = plan.get(rid)
    if o is None:
      R.violation('F01', 'a handler was called for no request')
    if o[0] == 'slow':
      R.sleep(o[2])
    return o

  class Svc:

    @A.http_action(method='GET', pattern='/files.v1/{a}/{rid}')
    def get(self, body, a, rid):
      o = handle('get', rid, (a,), body)
      if o[1] >= 400:
        raise A.HttpError(o[1])
      return A.HttpResponse(body=o[3], headers=o[4])

    @A.http_action(method='post', pattern='/put/{rid}?kind=raw')
    def put(self, body, rid):
      o = handle('put', rid, (), body)
      if o[1] >= 400:
        raise A.HttpError(o[1])
      return A.HttpResponse(o[3])

    @A.proto_action(service='google.internal.federatedcompute.v1.EligibilityEvalTasks',
                    method='RequestEligibilityEvalTask')
    def elig(self, request):
      o = handle('elig', request.client_version.version_code, (request.population_name,),
                 request.SerializeToString(deterministic=True))
      if o[1] >= 400:
        raise A.HttpError(o[1])
      return Env.eligibility_eval_tasks_pb2.EligibilityEvalTaskResponse(session_id=o[3].hex())

    def not_an_action(self):
      return 1

  class Svc2:
    attribute = 3

    @A.proto_action(service='google.internal.federatedcompute.v1.TaskAssignments',
                    method='StartTaskAssignment')
    def start(self, request):
      o = handle('start', request.session_id, (request.population_name,),
                 request.SerializeToString(deterministic=True))
      if o[1] >= 400:
        raise A.HttpError(o[1])
      return Env.operations_pb2.Operation(name=o[3].hex())

  srv = make_server(Svc(), Svc2())
  net = env.Net(srv, 'F01')
  net.swarm()
  net.p_lost = 0
  net.dups = []
  codes = [400, 401, 404, 409, 500, 503]

  def client(c):
    for k in range(1 + choose('work', 4)):
      rid = f'r{c}_{k}'
      kind = ['get', 'put', 'elig', 'start'][choose('work', 4)]
      code = codes[choose('work', len(codes))] if choose('work', 4) == 3 else 200
      hdrs = {'Content-Type': 'text/plain'} if choose('work', 2) else {}
      out = some_bytes()
      if hdrs:
        hdrs['Content-Length'] = len(out)
      with rt.atomic():
        plan[rid] = ('slow' if choose('work', 3) == 2 else 'now', code, choose('work', 30) / 10, out, hdrs)
      a = text()
      q = urllib.parse.quote(a, safe=['', "+&=!$'()*,;@"][choose('data', 2)])
      if choose('work', 4) == 3:
        q = ''.join('%%%02X' % b for b in a.encode())
      body, hd, want_args, want_body = None, [], (a,), b''
      status = 200
      if kind == 'get':
        path = f'/files.v1/{q}/{rid}'
      elif kind == 'put':
        path, want_args = f'/put/{rid}?kind=raw', ()
        body = want_body = some_bytes()
      elif kind == 'elig':
        m = Env.eligibility_eval_tasks_pb2.EligibilityEvalTaskRequest(
            population_name='from body' if choose('work', 2) else '')
        m.client_version.version_code = rid
        m.eligibility_eval_task_capabilities.supports_multiple_task_assignment = bool(choose('data', 2))
        path = f'/v1/eligibilityevaltasks/{q}:request?%24alt=proto'
        body = m.SerializeToString()
        m.population_name = a
        want_body = m.SerializeToString(deterministic=True)
      else:
        m = Env.task_assignments_pb2.StartTaskAssignmentRequest()
        m.client_version.version_code = 'v%d' % choose('data', 10)
        path = f'/v1/populations/{q}/taskassignments/{rid}:start?%24alt=proto'
        body = m.SerializeToString()
        m.population_name, m.session_id = a, rid
        want_body = m.SerializeToString(deterministic=True)
      method = 'GET' if kind == 'get' else 'POST'
      called = True
      # What can be wrong with it.
      bad = choose('fault', 12) if choose('fault', 2) else 0
      if bad == 1:
        path, status, called = '/x' + path if choose('fault', 2) else path + '/x', 404, False
      elif bad == 2:
        path, status, called = path + '&x=1' if '?' in path else path + '?x=1', 404, False
      elif bad == 3 and kind == 'get' and choose('fault', 2):
        path, status, called = path.replace('.v1', ['xv1', '/v1', 'v1', '.v1/'][choose('fault', 4)]), 404, False
      elif bad == 3:
        method, status, called = ('POST' if method == 'GET' else 'GET'), 404, False
        body = b'' if method == 'POST' else None
      elif bad == 4:
        method, status, called = ['PUT', 'DELETE', 'HEAD'][choose('fault', 3)], 501, False
        body = None
      elif bad == 5 and kind in ('elig', 'start'):
        path, status, called = path.replace('?%24alt=proto', ['', '?%24alt=json', '?alt=proto'][choose('fault', 3)]), 404, False
      elif bad == 6 and kind in ('elig', 'start'):
        body += b'\xff\xff\xff\xff'
        status, called = 400, False
      elif body is not None and bad in (7, 8, 9, 10, 11):
        if bad == 7:
          hd = [('Content-Encoding', ['deflate', 'br', 'x-unknown'][choose('fault', 3)])]
          status, called = 400, False
        elif bad == 8:
          z = bytearray(gzip.compress(body, mtime=0))
          how = choose('fault', 5)
          if how == 0:
            z = z[:choose('fault', len(z) - 1) + 1]
          elif how == 1:
            z[-8 + choose('fault', 8)] ^= 1 << choose('fault', 8)
          elif how == 2:
            z[choose('fault', 3)] ^= 0x40
          elif how == 3:
            z += b'junk'
          else:
            z = bytearray(body or b'not gzip')
          try:
            good = gzip.decompress(bytes(z)) == body
          except Exception:  # pylint: disable=broad-except
            good = False
          R.fault('damaged_compression')
          hd = [('Content-Encoding', 'gzip')]
          body = bytes(z)
          if not good:
            status, called = 400, False
        elif bad == 9:
          body = gzip.compress(body[:3], mtime=0) + gzip.compress(body[3:], mtime=0)
          hd = [(['Content-Encoding', 'content-encoding'][choose('data', 2)], 'gzip')]
        elif bad == 10:
          hd = [('Content-Encoding', 'gzip')]
          body = gzip.compress(body, mtime=0)
        else:
          hd = [('Content-Length', ['nonsense', '-1', '', str(len(body) + 1 + choose('fault', 5)), None][choose('fault', 5)])]
          R.fault('wrong_length')
          status, called = 'client error', False
          if hd[0][1] is None:
            raw = net.raw(f'{method} {path} HTTP/1.1\r\nHost: demo\r\n\r\n'.encode('latin1') + body)
            check(bool(raw), 'a request without a length was not answered')
            check(400 <= env.Reply(raw).status < 500, 'a request without a length gave %d', env.Reply(raw).status)
            check(rid not in calls, 'a handler was called for a malformed request')
            continue
      times, whole, r = net.request(method, path, body, hd)
      if not whole and called:
        status, called = 'client error', False
      for t in net.dups:
        t.join()
      with rt.atomic():
        got = calls.get(rid, [])
      R.count('calls' if got else 'refused')
      if called:
        # A duplicate may have been the one cut, lost or answered.
        check(len(got) == times, 'a handler was called %d times for %d requests', len(got), times)
        for g in got:
          check(g[0] == kind, 'another handler was called')
          check(g[1] == want_args, 'a handler got other path values: %r for %r', g[1], want_args)
          check(g[2] == want_body, 'a handler got another body')
      else:
        check(not got, 'a handler was called for a malformed request')
      if r is None:
        continue
      if status == 'client error':
        check(400 <= r.status < 500, 'a malformed request gave %d', r.status)
        continue
      want = code if called else status
      check(r.status == want, 'expected %s, got %d', want, r.status)
      check(r.repeats == 0, 'a header was sent twice')
      if want == 200:
        if kind == 'get' or kind == 'put':
          check(r.body == out, 'another response body')
          for k2, v in (hdrs if kind == 'get' else {}).items():
            check(r.headers.get(k2.lower()) == str(v), 'a response header is missing')
        else:
          m = (Env.eligibility_eval_tasks_pb2.EligibilityEvalTaskResponse(session_id=out.hex())
               if kind == 'elig' else Env.operations_pb2.Operation(name=out.hex()))
          check(r.body == m.SerializeToString(), 'another response body')
          check(r.headers.get('content-type') == 'application/x-protobuf', 'another content type')
  ts = [R.spawn(lambda c=c: client(c), f'client{c}') for c in range(1 + choose('work', 3))]
  for t in ts:
    t.join()


# ---------------------------------------------------------------- F02
PREFIX = 'http://demo:80/'


def run_f02():
  R = rt.R
  check = lambda c, m, *a: R.check('F02', c, m, *a)
  svc = Env.media.Service(lambda: Env.common_pb2.ForwardingInfo(target_uri_prefix=PREFIX))
  srv = make_server(svc)
  net = env.Net(srv, 'F02')
  net.swarm()
  net.dups = []
  files = {}    # url path -> [entry]
  prefixes = set()
  uploads = {}  # name -> entry

  def owner(c):
    for _ in range(1 + choose('work', 3)):
      entries = []
      try:
        with svc.create_download_group() as g:
          check(g.prefix.startswith(PREFIX) and g.prefix not in prefixes, 'a group has the prefix of another')
          prefixes.add(g.prefix)
          for _ in range(choose('work', 4)):
            name = ['plan', 'ckpt', 's_0', 'é b'][choose('work', 4)]
            data = some_bytes()
            ct = ['application/octet-stream', 'x/y'][choose('work', 2)]
            key = g.prefix[len(PREFIX) - 1:] + urllib.parse.quote(name)
            e = {'data': data, 'ct': ct, 'ab': tick(), 'ae': None, 'cb': None, 'ce': None}
            dup = any(x[0] == key for x in entries)
            if not dup:
              files[key] = e
            try:
              url = g.add(name, data, ct) if choose('work', 2) else g.add(name=name, data=data, content_type=ct)
              check(not dup, 'a file was replaced')
              check(url == g.prefix + name, 'another address')
              e['ae'] = tick()
              entries.append((key, e))
            except KeyError:
              check(dup, 'a new file was refused')
            if choose('work', 3) == 2:
              R.sleep(choose('time', 50) / 10)
          if choose('work', 3) == 2:
            R.sleep(choose('time', 50) / 10)
          for _, e in entries:
            e['cb'] = tick()
          if choose('fault', 4) == 3:
            R.fault('owner_failed')
            raise ValueError('stop')
      except ValueError:
        pass
      for _, e in entries:
        e['ce'] = tick()
      if entries and choose('work', 3) == 2:
        try:
          g.add('late', b'late')
          R.violation('F02', 'a file was added to a closed group')
        except KeyError:
          pass

  def downloader(c):
    for _ in range(1 + choose('work', 5)):
      with rt.atomic():
        keys = sorted(files)
      if not keys or choose('work', 8) == 7:
        path, e = '/data/nothing/plan', None
      else:
        path = keys[choose('work', len(keys))]
        e = files[path]
      b = tick()
      _, _, r = net.request('GET', path, quiet=True)
      end = tick()
      if r is None:
        continue
      R.count(f'download_{r.status}')
      if r.status == 200:
        check(e is not None and e['ab'] < end and (e['ce'] is None or e['ce'] > b), 'a file was served that is not there')
        check(r.body == e['data'], 'a file was served with other bytes')
        check(r.headers.get('content-type') == e['ct'], 'a file was served as another type')
        check(r.headers.get('content-length') == str(len(e['data'])), 'another length')
      else:
        check(r.status == 404, 'a download gave %d', r.status)
        check(e is None or e['ae'] is None or e['ae'] > b or (e['cb'] is not None and e['cb'] < end),
              'a file that is there was not served')
      if choose('work', 3) == 2:
        R.sleep(choose('time', 30) / 10)

  def registrar(c):
    for _ in range(1 + choose('work', 3)):
      name = svc.register_upload()
      check(name not in uploads, 'an upload name was given twice')
      e = {'at': [], 'fb': None, 'fe': None, 'res': None, 'reg': tick()}
      uploads[name] = e
      R.sleep(choose('time', 40) / 10)
      e['fb'] = tick()
      e['res'] = svc.finalize_upload(name)
      e['fe'] = tick()
      if choose('work', 3) == 2:
        try:
          svc.finalize_upload(name)
          R.violation('F02', 'an upload was finished twice')
        except KeyError:
          pass

  def uploader(c):
    for k in range(1 + choose('work', 4)):
      with rt.atomic():
        names = sorted(uploads)
      if not names or choose('work', 10) == 9:
        name = 'unknown'
      else:
        name = names[choose('work', len(names))]
      body = b'up-%d-%d-' % (c, k) + some_bytes() if choose('work', 5) else b''
      a = {'b': tick(), 'e': None, 'st': None, 'body': body, 'whole': True, 'n': 1}
      if name in uploads:
        uploads[name]['at'].append(a)
      send, hd = body, []
      if choose('work', 3) == 2:
        send, hd = gzip.compress(body, mtime=0), [('Content-Encoding', 'gzip')]
      n0 = len(net.dups)
      a['n'], a['whole'], r = net.request('POST', f'/upload/v1/media/{name}?upload_protocol=raw', send, hd, quiet=True)
      for t in net.dups[n0:]:
        t.join()
      a['e'] = tick()
      a['st'] = r.status if r else None
      if r is None:
        continue
      R.count(f'upload_{r.status}')
      if name == 'unknown':
        check(r.status == 401 or not a['whole'], 'an upload nobody registered gave %d', r.status)
        check(r.status != 200, 'an upload nobody registered was taken')
      if choose('work', 3) == 2:
        R.sleep(choose('time', 30) / 10)

  net.p_dup *= 0.5
  ts = []
  for f in (owner, downloader, registrar, uploader):
    for c in range(1 + choose('work', 2)):
      ts.append(R.spawn(lambda f=f, c=c: f(c), f'{f.__name__}{c}'))
  for t in ts:
    t.join()
  for t in net.dups:
    t.join()
  # History of each upload.
  for name, e in uploads.items():
    took = [a for a in e['at'] if a['st'] == 200]
    maybe = lambda a: a['whole'] and (a['st'] is None or a['n'] > 1)
    check(len(took) <= 1, 'an upload was taken twice')
    for a in e['at']:
      if a['st'] == 200:
        check(a['whole'], 'an upload that was cut off was taken')
        check(a['b'] < e['fe'], 'an upload was taken after its end')
        if a['e'] < e['fb']:
          check(e['res'] == a['body'], 'an acknowledged upload was not delivered')
      elif a['st'] is not None:
        if not a['whole']:
          check(400 <= a['st'] < 500, 'an upload that was cut off gave %d', a['st'])
          continue
        check(a['st'] == 401, 'an upload gave %d', a['st'])
        other = [x for x in e['at'] if x is not a and (x['st'] == 200 or maybe(x)) and x['b'] < a['e']]
        check(bool(other) or a['n'] > 1 or e['fb'] < a['e'] or e['reg'] > a['b'], 'an upload was refused without a reason')
    if e['res'] is not None:
      src = [a for a in e['at'] if a['body'] == e['res']]
      src = [a for a in src if a['b'] < e['fe'] and (a['st'] == 200 or maybe(a)) and a['whole']]
      check(len(src) > 0, 'an upload delivered bytes nobody sent')
      check(all(a in src for a in took), 'another upload was delivered than the acknowledged one')


# ---------------------------------------------------------------- F03
class Loop:
  """An event loop in a simulated thread."""

  def __init__(self):
    self.loop = rt.SimLoop()
    self.thread = rt.R.spawn(self._run, 'event loop', daemon=True)

  def _run(self):
    import asyncio
    asyncio.set_event_loop(self.loop)
    self.loop.set_exception_handler(lambda l, c: rt.R.count('loop_exception'))
    self.loop.run_forever()

  def start(self, make, done):
    """Runs make() as a task; done(result, exception) is called at its end."""
    box = {}

    def finished(t):
      if t.cancelled():
        done(None, 'cancelled')
      elif t.exception() is not None:
        done(None, t.exception())
      else:
        done(t.result(), None)
      rt.R.changed()

    def go():
      box['task'] = self.loop.create_task(make())
      box['task'].add_done_callback(finished)
    self.loop.call_soon_threadsafe(go)
    box['cancel'] = lambda: self.loop.call_soon_threadsafe(lambda: box['task'].cancel())
    return box

  def stop(self):
    self.loop.call_soon_threadsafe(self.loop.stop)
    self.thread.join()


def some_plan(ckpt=b''):
  p = Env.plan_pb2.Plan()
  s = p.phase.add().server_phase_v2
  s.SetInParent()
  for i in range(choose('data', 3)):
    a = s.aggregations.add(intrinsic_uri=['federated_sum', 'fedsql_group_by'][choose('data', 2)])
    for j in range(1 + choose('data', 2)):
      t = a.intrinsic_args.add().input_tensor
      t.name, t.dtype = f'in{i}{j}', [1, 2, 3, 7, 9, 23][choose('data', 6)]
      for _ in range(choose('data', 3)):
        t.shape.dim.add().size = choose('data', 5)
    t = a.output_tensors.add()
    t.name, t.dtype = f'out{i}', [1, 2, 3, 7, 9, 23][choose('data', 6)]
  return p


def check_config(check, plan, conf):
  """The aggregation is set up as the plan says."""
  aggs = plan.phase[0].server_phase_v2.aggregations
  spec = lambda t: (t.name, t.dtype)
  types = {1: 'DT_FLOAT', 2: 'DT_DOUBLE', 3: 'DT_INT32', 7: 'DT_STRING', 9: 'DT_INT64', 23: 'DT_UINT64'}
  dt = sys.modules[f'{env.AGG}.core.tensor_pb2'].DataType

  def same(a, b):
    return (a.name == b.name and [d.size for d in a.shape.dim] == list(b.shape.dim_sizes) and
            types[a.dtype] == dt.Name(b.dtype))
  check(len(aggs) == len(conf.intrinsic_configs), 'an aggregation is missing')
  for a, b in zip(aggs, conf.intrinsic_configs):
    check(a.intrinsic_uri == b.intrinsic_uri, 'another aggregation')
    check(len(a.intrinsic_args) == len(b.intrinsic_args) and len(a.output_tensors) == len(b.output_tensors),
          'a tensor is missing')
    check(all(same(x.input_tensor, y.input_tensor) for x, y in zip(a.intrinsic_args, b.intrinsic_args)) and
          all(same(x, y) for x, y in zip(a.output_tensors, b.output_tensors)), 'another tensor')


def run_f03():
  R, G = rt.R, Env.aggregations
  PB, CB = Env.aggregations_pb2, Env.common_pb2
  check = lambda c, m, *a: R.check('F03', c, m, *a)
  info = lambda: CB.ForwardingInfo(target_uri_prefix=PREFIX)
  names = []

  class Media(Env.media.Service):

    def register_upload(self):
      n = super().register_upload()
      names.append(n)
      return n
  media = Media(info)
  svc = G.Service(info, media)
  net = env.Net(make_server(media, svc), 'F03')
  net.swarm()
  net.dups = []
  p_break = 0.03 if choose('conf', 6) == 5 else 0.0
  loop = Loop()
  sessions, clients, waits = [], [], []
  tokens = {}     # token -> entry
  all_ct, all_res = set(), set()

  def broke(proto, name):
    if not R.rare('fault', p_break):
      return False
    R.fault('aggregation_broke_down')
    for s in sessions:
      if s['proto'] is proto and s['broken'] is None:
        s['broken'] = tick()
    return True
  env.Protocol.faults = broke

  def post(path, msg):
    a = {'b': tick(), 'e': None, 'st': None, 'whole': True, 'n': 1}

    def send():
      a['n'], a['whole'], r = net.request('POST', path + '?%24alt=proto', msg.SerializeToString(), quiet=True)
      a['e'] = tick()
      a['st'] = r.status if r else None
      if r is not None:
        R.count(f"{path.rsplit(':', 1)[1]}_{r.status}")
      return r
    return a, send

  def authorise(s, n):
    try:
      got = svc.pre_authorize_clients(s['id'], n)
    except KeyError:
      check(s['eb'] is not None, 'a live session could not be found')
      return
    check(len(got) == n, 'another number of tokens')
    for t in got:
      check(t not in tokens, 'a token was issued twice')
      tokens[t] = e = {'tok': t, 's': s, 'att': []}
      s['tokens'].append(e)
    R.changed()

  def await_count(s, n):
    w = {'s': s, 'n': n, 'b': tick(), 'e': None, 'done': False, 'cancel': False}

    def done(res, exc):
      w.update(e=tick(), done=True, res=res, exc=exc)
    w['box'] = loop.start(lambda: svc.wait(s['id'], n) if n is not None or choose('work', 2) else svc.wait(s['id']), done)
    waits.append(w)
    return w

  def finish(s, kind):
    with rt.atomic():
      first = s['eb'] is None
      if first:
        s['eb'] = tick()
    before = sum(1 for c in clients if c['s'] is s for a in c['subs'] if a['st'] == 200 and a['e'] < s['eb'])
    try:
      res = svc.complete_session(s['id']) if kind == 'complete' else (svc.abort_session(s['id']), None)
    except KeyError:
      check(s['ends'] > 0 or s['ending'] > 1, 'a live session could not be found')
      return
    s['ends'] += 1
    s['ee'] = tick()
    check(s['ends'] == 1, 'a session ended twice')
    st, out = res
    s['kind'], s['out'], s['st'] = kind, out, st
    R.event('%s -> %s', kind, st.status)
    R.count(f'{kind}_{st.status.name}')
    n = len(s['proto'].inputs)
    check(st.num_inputs_aggregated_and_included == n, 'another count of inputs')
    if kind == 'abort':
      check(st.status == G.AggregationStatus.ABORTED, 'an aborted session ended as %s', st.status)
      check(s['proto'].state == 'aborted', 'an aborted session goes on')
      return
    if st.status == G.AggregationStatus.COMPLETED:
      check(n >= s['min'], 'a result was released from %d inputs, %d required', n, s['min'])
      check(out == b'\n'.join(sorted(d for _, d in s['proto'].inputs)), 'another result')
    else:
      check(out is None, 'a failed session gave a result')
      check(st.status == G.AggregationStatus.FAILED, 'a session ended as %s', st.status)
      check(before < s['min'] or s['broken'], 'a session failed with %d of %d inputs', before, s['min'])

  def owner(c):
    plan = some_plan()
    low = choose('work', 4)
    sid = svc.create_session(G.AggregationRequirements(low, plan))
    s = {'id': sid, 'min': low, 'tokens': [], 'eb': None, 'ee': None, 'kind': None, 'ends': 0, 'ending': 1,
         'proto': [p for p in env.ALL if p.tid == R.cur.tid][-1], 'broken': None,
         'out': None, 'st': None}
    check_config(check, plan, s['proto'].config)
    with rt.atomic():
      check(all(x['id'] != sid for x in sessions), 'a session id was given twice')
      sessions.append(s)
    R.changed()
    authorise(s, 2 + choose('work', 5))
    ws = [await_count(s, [low, None, 0, 1, 2, 5][choose('work', 6)]) for _ in range(choose('work', 4))]
    how = choose('work', 5)
    last = [-1]
    for _ in range(choose('work', 4)):
      what = choose('work', 5)
      if what == 0:
        authorise(s, choose('work', 3))
      elif what == 1:
        b = tick()
        st = svc.get_session_status(sid)
        e = tick()
        lo = sum(1 for c in clients if c['s'] is s for a in c['subs'] if a['st'] == 200 and a['e'] < b)
        hi = sum(1 for c in clients if c['s'] is s and any(a['b'] < e for a in c['subs']))
        check(lo <= st.num_inputs_aggregated_and_included <= hi, 'a count of %d inputs, not %d to %d',
              st.num_inputs_aggregated_and_included, lo, hi)
        check(st.status == G.AggregationStatus.PENDING, 'a live session is %s', st.status)
        check(st.num_inputs_aggregated_and_included >= last[0], 'a count went back')
        last[0] = st.num_inputs_aggregated_and_included
      elif what == 2 and ws:
        w = ws[choose('work', len(ws))]
        w['cancel'] = True
        R.fault('wait_cancelled')
        R.wait_for(lambda: 'task' in w['box'], 1000)
        w['box']['cancel']()
      else:
        R.sleep(choose('time', 60) / 10)
    if how in (1, 2) and ws:
      R.wait_for(lambda: ws[0]['done'] or not busy[0], 300, 'session')
    elif how == 3:
      R.wait_for(lambda: any(c['s'] is s and c['subs'] for c in clients) or not busy[0], 300, 'session')
    elif how == 0:
      R.wait_for(lambda: not busy[0], 300, 'session')
    if choose('work', 2) == 0:
      # Waits whose count is reached end while the session goes on.
      acked = sum(1 for c in clients if c['s'] is s and any(a['st'] == 200 for a in c['subs']))
      due = [w for w in ws if w['n'] is None or w['n'] <= acked]
      check(R.wait_for(lambda: all(w['done'] for w in due) or s['broken'], 400, 'due waits'),
            'a wait goes on although its count is reached')
    kind = 'complete' if choose('work', 3) else 'abort'
    if choose('work', 5) == 4:
      s['ending'] += 1
      t = R.spawn(lambda: finish(s, 'abort' if choose('work', 2) else 'complete'), 'other end')
      finish(s, kind)
      t.join()
    else:
      finish(s, kind)
    if choose('work', 4) == 3:
      try:
        svc.get_session_status(sid)
        R.violation('F03', 'a session exists after its end')
      except KeyError:
        pass

  def device(d):
    try:
      use_device(d)
    finally:
      busy[0] -= 1
      R.changed()

  def use_device(d):
    if not R.wait_for(lambda: any(s['tokens'] for s in sessions), 200, 'session'):
      return
    for k in range(1 + choose('work', 2)):
      ss = [s for s in sessions if s['tokens']]
      s = ss[choose('work', len(ss))]
      i = (d + k) % len(s['tokens']) if choose('work', 4) else choose('work', len(s['tokens']))
      tk = s['tokens'][i]
      sid = s['id']
      odd = choose('fault', 14)
      if odd == 13:
        tk = {'tok': 'madeup', 's': s, 'att': []}
      elif odd == 12:
        sid = 'madeup'
      elif odd == 11 and len(ss) > 1:
        sid = [x for x in ss if x is not s][0]['id']
      a, send = post(f"/v1/aggregations/{sid}/clients/{tk['tok']}:startdataupload",
                     PB.StartAggregationDataUploadRequest())
      a['sid'] = sid
      tk['att'].append(a)
      r = send()
      if (sid != s['id'] or odd == 13) and r is not None and a['whole']:
        check(r.status in (401, 404), 'a start without authorisation gave %d', r.status)
      if r is None or r.status != 200:
        R.sleep(choose('time', 20) / 10)
        continue
      op = Env.operations_pb2.Operation.FromString(r.body)
      m = PB.StartAggregationDataUploadResponse()
      check(op.done and op.response.Unpack(m), 'another response')
      check(m.client_token and m.client_token not in all_ct, 'a client token was given twice')
      res = m.resource.resource_name
      check(res and res not in all_res, 'an upload name was given twice')
      check(m.aggregation_protocol_forwarding_info.target_uri_prefix == PREFIX and
            m.resource.data_upload_forwarding_info.target_uri_prefix == PREFIX, 'another address')
      all_ct.add(m.client_token)
      all_res.add(res)
      c = {'s': s, 'tok': m.client_token, 'res': res, 'ups': [], 'subs': [], 'abs': [], 'd': d}
      clients.append(c)
      todo = ['up', 'sub']
      if choose('work', 3) == 2:
        todo = [['up', 'sub', 'wrong', 'abort', 'sleep', 'other', 'foreign'][choose('work', 7)]
                for _ in range(1 + choose('work', 5))]
      for what in todo:
        if what == 'up':
          data = (b'!' if choose('work', 8) == 7 else b'') + b'd%d.%d.%d' % (d, k, len(c['ups']))
          u = {'b': tick(), 'data': data, 'e': None, 'st': None}
          c['ups'].append(u)
          u['n'], u['whole'], r = net.request('POST', f'/upload/v1/media/{res}?upload_protocol=raw', data, quiet=True)
          u['e'] = tick()
          u['st'] = r.status if r else None
          if r is not None:
            R.count(f'upload_{r.status}')
          if r is None and choose('work', 2):
            continue
        elif what in ('sub', 'wrong', 'foreign'):
          name = res
          if what == 'wrong':
            others = [x['res'] for x in clients if x is not c]
            name = others[choose('work', len(others))] if others and choose('work', 2) else 'x'
          to = s
          if what == 'foreign' and len(sessions) > 1:
            to = [x for x in sessions if x is not s][0]
          a, send = post(f"/v1/aggregations/{to['id']}/clients/{c['tok']}:submit",
                         PB.SubmitAggregationResultRequest(resource_name=name))
          a['right'] = name == res
          if to is not s:
            send()
            if a['st'] is not None and a['whole']:
              check(a['st'] in (401, 404), 'a client of another session got %d', a['st'])
            continue
          c['subs'].append(a)
          R.changed()
          send()
          if a['st'] is None and choose('work', 2):
            b2, send = post(f"/v1/aggregations/{s['id']}/clients/{c['tok']}:submit",
                            PB.SubmitAggregationResultRequest(resource_name=name))
            b2['right'] = name == res
            c['subs'].append(b2)
            send()
        elif what == 'abort':
          q = PB.AbortAggregationRequest()
          q.status.code = [0, 1, 13, 99, -1][choose('work', 5)]
          q.status.message = 'm'
          a, send = post(f"/v1/aggregations/{s['id']}/clients/{c['tok']}:abort", q)
          c['abs'].append(a)
          send()
        elif what == 'other':
          a, send = post(f"/v1/aggregations/{s['id']}/clients/madeup:submit", PB.SubmitAggregationResultRequest(resource_name=res))
          send()
          if a['st'] is not None and a['whole']:
            check(a['st'] in (401, 404), 'an unknown client got %d', a['st'])
        else:
          R.sleep(choose('time', 60) / 10)

  busy = [1 + choose('work', 5)]
  ts = [R.spawn(lambda c=c: device(c), f'device{c}') for c in range(busy[0])]
  ts += [R.spawn(lambda c=c: owner(c), f'owner{c}') for c in range(1 + choose('work', 2))]
  for t in ts:
    t.join()
  for t in net.dups:
    t.join()
  env.Protocol.faults = None

  # Waits end with their condition or the session.
  check(R.wait_for(lambda: all(w['done'] for w in waits), 10000, 'waits'), 'a wait never ended')
  for w in waits:
    s = w['s']
    if w['exc'] == 'cancelled':
      check(w['cancel'], 'a wait was cancelled by nobody')
    elif w['exc'] is not None:
      check(isinstance(w['exc'], KeyError) and s['eb'] < w['e'], 'a wait failed with %r', w['exc'])
    elif w['res'].status == G.AggregationStatus.PENDING:
      n = w['res'].num_inputs_aggregated_and_included
      check(w['n'] is None or n >= w['n'], 'a wait for %s inputs ended at %d', w['n'], n)
      hi = sum(1 for c in clients if c['s'] is s and any(a['b'] < w['e'] for a in c['subs']))
      check(n <= hi, 'a wait counted %d of %d inputs', n, hi)
    else:
      check(s['eb'] < w['e'], 'a wait of a live session ended as %s', w['res'].status)
  loop.stop()
  check(R.probes['loop_exception'] <= sum(w['cancel'] for w in waits), 'a wait was answered twice')

  # Each token is redeemed once.
  for tk in tokens.values():
    s = tk['s']
    check(sum(a['st'] == 200 for a in tk['att']) <= 1, 'a token was redeemed twice')
    for a in tk['att']:
      if a['st'] is None:
        continue
      if not a['whole']:
        check(400 <= a['st'] < 500, 'a request that was cut off gave %d', a['st'])
      elif a['sid'] != s['id']:
        pass
      elif s['ee'] is not None and s['ee'] < a['b']:
        check(a['st'] == 404, 'a start after the end gave %d', a['st'])
      elif a['n'] > 1 or any(x is not a and x['b'] < a['e'] for x in tk['att']):
        pass
      elif not (s['eb'] is not None and s['eb'] < a['e'] or s['broken'] and s['broken'] < a['e']):
        check(a['st'] == 200, 'an authorised start gave %d', a['st'])
  # Each client's history.
  for c in clients:
    s = c['s']
    terminal = c['subs'] + c['abs']
    mine = [i for i, (_, d) in enumerate(s['proto'].inputs) if any(d == u['data'] for u in c['ups'])]
    acks = [a for a in c['subs'] if a['st'] == 200]
    check(len(acks) <= 1, 'a submission was acknowledged twice')
    check(len(mine) <= 1, 'an input was included twice')
    for a in terminal:
      sub = 'right' in a
      if a['st'] is None:
        continue
      if not a['whole']:
        check(400 <= a['st'] < 500, 'a request that was cut off gave %d', a['st'])
        continue
      if s['ee'] is not None and s['ee'] < a['b']:
        check(a['st'] == 404, 'a request after the end gave %d', a['st'])
        continue
      if a['st'] == 404:
        check(s['eb'] is not None and s['eb'] < a['e'], 'a live session could not be found')
      if sub and a['st'] == 200:
        check(a['right'], 'a submission with another upload was taken')
        check(any(u['whole'] and u['b'] < a['e'] and (u['st'] in (200, None) or u['n'] > 1) for u in c['ups']),
              'a submission without an upload was taken')
        check(len(mine) == 1, 'an acknowledged input was not included')
      if a['n'] > 1 or any(x is not a and x['b'] < a['e'] and x['whole'] for x in terminal):
        continue
      if s['eb'] is not None and s['eb'] < a['e'] or s['broken'] and s['broken'] < a['e']:
        continue
      if not sub:
        check(a['st'] == 200, 'a client could not leave: %d', a['st'])
        continue
      ups = [u for u in c['ups'] if u['b'] < a['e']]
      if not a['right']:
        check(a['st'] == 400, 'a submission with another upload gave %d', a['st'])
      elif not ups:
        check(a['st'] in (400, 500), 'a submission without an upload gave %d', a['st'])
      else:
        good = [u for u in ups if u['st'] == 200 and u['e'] < a['b']]
        if good and good[0]['data'].startswith(b'!'):
          check(a['st'] in (400, 500), 'an input that cannot be read gave %d', a['st'])
        elif good:
          check(a['st'] == 200, 'a submission gave %d', a['st'])
    if mine:
      check(any((a['st'] == 200 or a['st'] is None or a['n'] > 1) and a['right'] for a in c['subs']),
            'an input was included that was not submitted')
      got = s['proto'].inputs[mine[0]][1]
      u = [u for u in c['ups'] if u['data'] == got][0]
      check(u['whole'] and (u['st'] in (200, None) or u['n'] > 1), 'an input was included that was refused')
    if len(c['abs']) == 1 and c['abs'][0]['st'] == 200 and c['abs'][0]['n'] == 1:
      check(not mine or any(a['b'] < c['abs'][0]['e'] for a in c['subs']), 'an input of a client that left was included')
  known = {c['res']: c for c in clients}
  # Nothing is held after the end.
  for n in names:
    c = known.get(n)
    try:
      media.finalize_upload(n)
      R.violation('F03', 'an upload is held after the end')
    except KeyError:
      pass
  for i, d in ((i, d) for s in sessions for i, d in s['proto'].inputs):
    check(not d.startswith(b'!'), 'an input that cannot be read was included')


# ---------------------------------------------------------------- F04
def run_f04():
  R = rt.R
  EB, TB, AB = Env.eligibility_eval_tasks_pb2, Env.task_assignments_pb2, Env.aggregations_pb2
  Mode = Env.population_eligibility_spec_pb2.PopulationEligibilitySpec.TaskInfo
  SINGLE, MULTI = Mode.TASK_ASSIGNMENT_MODE_SINGLE, Mode.TASK_ASSIGNMENT_MODE_MULTIPLE
  check = lambda c, m, *a: R.check('F04', c, m, *a)
  srv = Env.server.InProcessServer(population_name='pop/ulation', host='demo', port=80)
  POP = 'pop%2Fulation'
  net = env.Net(srv, 'F04')
  net.swarm()
  net.dups = []
  loop = Loop()
  tasks, tokens, resources, sessions = [], {}, [], set()
  by_name = {}
  lines = {}    # submitted data -> entry

  def post(path, msg, want=None):
    _, whole, r = net.request('POST', path + '?%24alt=proto', msg.SerializeToString(), quiet=True)
    if r is not None:
      R.count(f"{path.rsplit(':', 1)[1]}_{r.status}")
      if not whole:
        check(400 <= r.status < 500, 'a request that was cut off gave %d', r.status)
        return None
      if want is not None:
        check(r.status == want, '%s gave %d', path.rsplit(':', 1)[1], r.status)
    return r

  def may_live(t, b, e):
    return t['b'] < e and (t['e'] is None or t['e'] > b)

  def must_live(t, seen, b, e):
    return (t[seen] is not None and t[seen] < b and not (t['cancel'] and t['cancel'] < e) and
            len([x for x in t['subs'] if x < e]) < t['n'])

  def launch(k):
    mode = [SINGLE, MULTI][choose('work', 2)]
    bad = choose('fault', 10) == 9
    if bad:
      R.fault('unsupported_mode')
      mode = [0, 7][choose('fault', 2)]
    t = {'name': f'task/{k}', 'mode': mode, 'n': choose('work', 4), 'ckpt': b'c%d' % k, 'b': tick(), 'e': None,
         'cancel': None, 'res': None, 'exc': None, 'spec': None, 'asg': None, 'subs': [], 'sid': None, 'bad': bad,
         'uris': None}

    def done(res, exc):
      t.update(e=tick(), res=res, exc=exc)
      R.event('%s ended: %s', t['name'], type(exc).__name__ if exc else 'ok')
    with rt.atomic():
      tasks.append(t)
      by_name[t['name']] = t
    plan = some_plan()
    t['box'] = loop.start(lambda: srv.run_computation(t['name'], plan, t['ckpt'], mode, t['n']), done)
    return t

  def fetch(t, uri, want, b0):
    check(uri.startswith('http://demo:80/'), 'another address')
    b = tick()
    _, _, r = net.request('GET', uri[len('http://demo:80'):], quiet=True)
    e = tick()
    if r is None:
      return
    R.count(f'download_{r.status}')
    if r.status == 200:
      check(gzip.decompress(r.body) == want, 'another file')
      check(t['e'] is None or t['e'] > b, 'a file outlived its computation')
    else:
      check(r.status == 404, 'a download gave %d', r.status)
      check(not must_live(t, 'asg', b, e), 'a file of a live computation is gone')

  def assigned(a, sid, b, e, mode):
    t = by_name.get(a.task_name)
    check(t is not None and may_live(t, b, e), 'a task was assigned that is not there')
    check(t['mode'] == mode, 'a task was assigned in another way')
    check(a.session_id == sid, 'another session')
    check(a.authorization_token and a.authorization_token not in tokens, 'a token was given twice')
    tokens[a.authorization_token] = t
    check(t['sid'] in (None, a.aggregation_id), 'a task has two aggregations')
    check(all(x is t or x['sid'] != a.aggregation_id for x in tasks), 'two tasks have one aggregation')
    t['sid'] = a.aggregation_id
    check(a.aggregation_data_forwarding_info.target_uri_prefix == 'http://demo:80/', 'another address')
    uris = (a.plan.uri, a.init_checkpoint.uri, a.federated_select_uri_info.uri_template)
    check(t['uris'] in (None, uris), 'other files of the same task')
    t['uris'] = uris
    if t['asg'] is None:
      t['asg'] = e
    return t

  def contribute(t, a, d, honest):
    which = choose('work', 4) if not honest else 0
    if which in (0, 1):
      fetch(t, a.plan.uri, b'plan ' + t['ckpt'], 0)
    if which in (0, 2):
      fetch(t, a.init_checkpoint.uri, b'checkpoint ' + t['ckpt'], 0)
    if which in (0, 3):
      k = choose('work', 2)
      uri = a.federated_select_uri_info.uri_template.replace('{served_at_id}', 's').replace('{key_base10}', str(k))
      fetch(t, uri, b'slice%d ' % k + t['ckpt'], 0)
    if not honest and choose('work', 6) == 5:
      R.fault('device_left')
      return
    base = f'/v1/aggregations/{a.aggregation_id}/clients/'
    r = post(base + a.authorization_token + ':startdataupload', AB.StartAggregationDataUploadRequest())
    if r is None or r.status != 200:
      return
    m = AB.StartAggregationDataUploadResponse()
    check(Env.operations_pb2.Operation.FromString(r.body).response.Unpack(m), 'another response')
    resources.append((t, m.resource.resource_name))
    if not honest and choose('work', 6) == 5:
      R.fault('device_left')
      return
    data = b'%s by %d.%d' % (t['name'].encode(), d, tick())
    lines[data] = x = {'t': t, 'acked': False, 'maybe': False}
    _, whole, r = net.request('POST', f'/upload/v1/media/{m.resource.resource_name}?upload_protocol=raw', data, quiet=True)
    if not whole or r is None and not choose('work', 2):
      return
    if not honest and choose('work', 6) == 5:
      q = AB.AbortAggregationRequest()
      q.status.code = 13
      post(base + m.client_token + ':abort', q)
      R.fault('device_left')
      return
    t['subs'].append(tick())
    x['maybe'] = True
    r = post(base + m.client_token + ':submit', AB.SubmitAggregationResultRequest(resource_name=m.resource.resource_name))
    if r is not None:
      x['acked'] = r.status == 200
    q = TB.ReportTaskResultRequest(task_name=t['name'], aggregation_id=a.aggregation_id)
    q.computation_status_code = [0, 0, 13, 4711][choose('work', 4)]
    post(f'/v1/populations/{POP}/taskassignments/x:reportresult', q, 200)

  def checkin(d, honest):
    q = EB.EligibilityEvalTaskRequest()
    multi = honest or bool(choose('work', 2))
    q.eligibility_eval_task_capabilities.supports_multiple_task_assignment = multi
    if not honest and choose('work', 10) == 9:
      post('/v1/eligibilityevaltasks/other:request', q, 404)
      post('/v1/populations/other/eligibilityevaltasks/x:reportresult', EB.ReportEligibilityEvalTaskResultRequest(), 404)
      post('/v1/populations/other/taskassignments/x:start', TB.StartTaskAssignmentRequest(), 404)
      post('/v1/populations/other/taskassignments/x:performmultiple', TB.PerformMultipleTaskAssignmentsRequest(), 404)
      post('/v1/populations/other/taskassignments/x:reportresult', TB.ReportTaskResultRequest(), 404)
    b = tick()
    r = post(f'/v1/eligibilityevaltasks/{POP}:request', q, 200)
    e = tick()
    names = []
    if r is not None:
      m = EB.EligibilityEvalTaskResponse.FromString(r.body)
      check(m.session_id and m.session_id not in sessions, 'a session was given twice')
      sessions.add(m.session_id)
      check(m.task_assignment_forwarding_info.target_uri_prefix == 'http://demo:80/', 'another address')
      for w in (m.retry_window_if_accepted, m.retry_window_if_rejected):
        check(0 < w.delay_min.seconds <= w.delay_max.seconds, 'no retry window')
      if multi:
        check(m.HasField('eligibility_eval_task'), 'a device was not told the tasks')
        spec = Env.population_eligibility_spec_pb2.PopulationEligibilitySpec.FromString(
            m.eligibility_eval_task.population_eligibility_spec.inline_resource.data)
        names = [i.task_name for i in spec.task_info]
        check(len(set(names)) == len(names), 'a task is listed twice')
        for i in spec.task_info:
          t = by_name.get(i.task_name)
          check(t is not None and may_live(t, b, e), 'a task is listed that is not there')
          check(i.task_assignment_mode == t['mode'], 'a task is listed in another mode')
          if t['spec'] is None:
            t['spec'] = e
        for t in list(tasks):
          check(t['name'] in names or not must_live(t, 'spec', b, e), 'a live task is not listed')
      else:
        check(m.HasField('no_eligibility_eval_configured'), 'another response')
      if choose('work', 3) == 2:
        q = EB.ReportEligibilityEvalTaskResultRequest()
        q.status_code = [0, 5, 4711][choose('work', 3)]
        post(f'/v1/populations/{POP}/eligibilityevaltasks/{m.session_id}:reportresult', q, 200)
    elif not honest and choose('work', 2):
      return
    sid = f's{d}.{tick()}'
    if (honest and choose('work', 2)) or (not honest and choose('work', 2)):
      q = TB.PerformMultipleTaskAssignmentsRequest(task_names=names)
      if not honest:
        with rt.atomic():
          q.task_names.extend(t['name'] for t in tasks if choose('work', 2) and t['name'] not in names)
        q.task_names.append('none')
      b = tick()
      r = post(f'/v1/populations/{POP}/taskassignments/{sid}:performmultiple', q, 200)
      e = tick()
      if r is None:
        return
      m = TB.PerformMultipleTaskAssignmentsResponse.FromString(r.body)
      got = [a.task_name for a in m.task_assignments]
      check(len(set(got)) == len(got), 'a task was assigned twice')
      for t in list(tasks):
        check(t['name'] in got or t['mode'] != MULTI or t['name'] not in q.task_names or not must_live(t, 'asg', b, e),
              'a live task was not assigned')
      for a in m.task_assignments:
        check(a.task_name in q.task_names, 'a task was assigned that was not asked for')
      for a in m.task_assignments:
        t = assigned(a, sid, b, e, MULTI)
        R.count('assigned_multiple')
      for a in m.task_assignments:
        contribute(by_name[a.task_name], a, d, honest)
    else:
      b = tick()
      r = post(f'/v1/populations/{POP}/taskassignments/{sid}:start', TB.StartTaskAssignmentRequest(), 200)
      e = tick()
      if r is None:
        return
      op = Env.operations_pb2.Operation.FromString(r.body)
      m = TB.StartTaskAssignmentResponse()
      check(op.done and op.response.Unpack(m), 'another response')
      live = [t for t in list(tasks) if t['mode'] == SINGLE and must_live(t, 'asg', b, e)]
      if m.HasField('rejection_info'):
        check(not live, 'a device was rejected although there is a task')
        R.count('rejected')
        return
      check(m.HasField('task_assignment'), 'another response')
      t = assigned(m.task_assignment, sid, b, e, SINGLE)
      for x in live:
        check(x is t or not x['asg'] < t['b'], 'a later task was assigned first')
      R.count('assigned_single')
      contribute(t, m.task_assignment, d, honest)

  def launcher(c):
    mine = []
    for i in range(1 + choose('work', 2)):
      mine.append(launch(len(tasks) + 100 * c))
      R.sleep(choose('time', 100) / 10)
      if choose('work', 6) == 5:
        t = mine[choose('work', len(mine))]
        R.wait_for(lambda: 'task' in t['box'], 1000)
        with rt.atomic():
          if t['cancel'] is None:
            t['cancel'] = tick()
        R.fault('computation_cancelled')
        t['box']['cancel']()

  def device(d):
    for _ in range(1 + choose('work', 4)):
      checkin(d, False)
      if choose('work', 2):
        R.sleep(choose('time', 60) / 10)

  ts = [R.spawn(lambda c=c: launcher(c), f'launcher{c}') for c in range(1 + choose('work', 2))]
  ts += [R.spawn(lambda c=c: device(c), f'device{c}') for c in range(1 + choose('work', 4))]
  for t in ts:
    t.join()
  for t in net.dups:
    t.join()
  # The faults stop: the computations end.
  net.p_lost = net.p_rlost = net.p_cut = net.p_dup = net.p_gone = 0.0
  net.slow = 0.0
  over = lambda: all(t['e'] is not None for t in tasks)

  def good(d):
    for _ in range(12 * len(tasks)):
      if over():
        return
      checkin(d, True)
      R.sleep(1)
  hs = [R.spawn(lambda d=d: good(d), f'device{d}') for d in (50, 51, 52)]
  for t in hs:
    t.join()
  check(R.wait_for(over, 1000, 'computations'), 'a computation never ended')
  loop.stop()
  for t in tasks:
    if t['bad']:
      check(isinstance(t['exc'], ValueError) or t['cancel'] and t['exc'] == 'cancelled', 'an unsupported mode gave %r', t['exc'])
      continue
    if t['cancel'] and t['exc'] == 'cancelled':
      R.count('cancelled')
      continue
    check(t['exc'] is None, 'a computation failed: %r', t['exc'])
    head, *rest = t['res'].split(b'\n')
    rest = [x for x in rest if x]
    R.count('results')
    check(head == b'final ' + t['ckpt'], 'the result of another computation')
    check(len(rest) >= t['n'], 'a result of %d inputs, %d required', len(rest), t['n'])
    check(len(set(rest)) == len(rest), 'an input was counted twice')
    for x in rest:
      check(x in lines and lines[x]['t'] is t, 'an input of another task was counted')
      check(lines[x]['maybe'], 'an input was counted that was not submitted')
    for x, l in lines.items():
      check(l['t'] is not t or not l['acked'] or x in rest, 'an acknowledged input was not counted')
  # Nothing is left.
  q = EB.EligibilityEvalTaskRequest()
  q.eligibility_eval_task_capabilities.supports_multiple_task_assignment = True
  m = EB.EligibilityEvalTaskResponse.FromString(post(f'/v1/eligibilityevaltasks/{POP}:request', q, 200).body)
  check(not m.eligibility_eval_task.population_eligibility_spec.inline_resource.data, 'a task outlived its computation')
  m = TB.StartTaskAssignmentResponse()
  Env.operations_pb2.Operation.FromString(
      post(f'/v1/populations/{POP}/taskassignments/z:start', TB.StartTaskAssignmentRequest(), 200).body).response.Unpack(m)
  check(m.HasField('rejection_info'), 'a task outlived its computation')
  m = TB.PerformMultipleTaskAssignmentsResponse.FromString(
      post(f'/v1/populations/{POP}/taskassignments/z:performmultiple',
           TB.PerformMultipleTaskAssignmentsRequest(task_names=[t['name'] for t in tasks]), 200).body)
  check(not m.task_assignments, 'a task outlived its computation')
  for t in tasks:
    for uri in (t['uris'] or ())[:2]:
      _, _, r = net.request('GET', uri[len('http://demo:80'):], quiet=True)
      check(r.status == 404, 'a file outlived its computation')
  for tok, t in list(tokens.items())[:3]:
    post(f"/v1/aggregations/{t['sid']}/clients/{tok}:startdataupload", AB.StartAggregationDataUploadRequest(), 404)
  for t, name in resources[:3]:
    _, _, r = net.request('POST', f'/upload/v1/media/{name}?upload_protocol=raw', b'late', quiet=True)
    check(r.status == 401, 'an upload outlived its computation')


RUNS = {'F01': run_f01, 'F02': run_f02, 'F03': run_f03, 'F04': run_f04}


def setup():
  env.patch()
  _clock[0] = 0


if __name__ == '__main__':
  rt.main('demo', REAL, STUB, RUNS, setup, load)

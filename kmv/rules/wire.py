"""models of sending and receiving messages shared by several rules"""
from .common import *


def conn_of(ev):
  return ev.obj


def serializer_hook(I, st, ev):
  """Serializer::write: appends the value to the log; None if not applicable"""
  if ev.name == 'write' and ev.cls == 'Serializer':
    vals = [I.rv(st, a) for a in ev.args]
    st.mon = st.mon + (('w', tuple(vals)),)
    return [(st, VOID)]
  return None


def send_hook(I, st, ev, fail=False):
  """Connection::send_message: runs the writer and logs ('msg', connection, values)"""
  if ev.name != 'send_message' or not ev.cls or bare(ev.cls) != 'Connection':
    return None
  lam = I.rv(st, ev.args[0])
  if lam.k == 'lam':
    pass
  elif ev.args[0].k == 'LV':
    lam = I.load(st, ev.args[0].a[0])
  n0 = len(st.mon)
  out = []
  for s, _ in I.call_value(lam, st, [mk('LV', F(ev.obj, 'Connection::m_serializer'))], ev.node):
    vals = tuple(v for x in s.mon[n0:] if x[0] == 'w' for v in x[1])
    s.mon = s.mon[:n0] + (('msg', ev.obj, vals),)
    if fail:
      s2 = s.copy()
      out += [(s, C1), (s2, C0)]
    else:
      r = fresh('sent')
      I.tr[r] = ((0, 1),)
      out.append((s, r))
  return out


def type_name(t):
  t = t or {}
  return bare(t.get('rec') or t.get('enum') or t.get('s') or '')


def reader_hook(I, st, ev, kind, values):
  """Deserializer::read*: the first value of type MessageType is `kind`, others come from values(type, index)"""
  if ev.cls != 'Deserializer' or ev.name not in ('read', 'read_string', 'can_read'):
    return None
  if ev.name == 'can_read':
    return [(st, C1)]
  if ev.name == 'read_string':
    return [(st, values('string'))]
  ret = ev.c.get('ret') or {}
  if len(ev.args) == 0:
    t = type_name(ret)
    if t == 'MessageType':
      return [(st, kind)]
    v = values(t)
    if v is None:
      v = fresh('received')
    I.settype(v, ret)
    if getattr(I, 'log_reads', False):
      st.mon = st.mon + (('replied', t, v),)
    return [(st, v)]
  for a in ev.args[:1]:
    v = I.rv(st, a)
    l = deref(v)
    I.havoc(st, l, 'received')
  return [(st, VOID)]


def kinds_of(P):
  return {x['n']: x['v'] for x in P.enums['MessageType']['e']}


def read_hook(I, st, ev, messages, fail=True, none=True):
  """Connection::read_messages: fails, delivers nothing or delivers one of the given messages [(kind, values)];
  logs ('read', connection, 'fail' | 'none' | kind)"""
  if ev.name != 'read_messages' or not ev.cls or bare(ev.cls) != 'Connection':
    return None
  lam = I.rv(st, ev.args[-1])
  out = []
  mon = st.mon
  if fail:
    s = st.copy()
    s.mon = mon + (('read', ev.obj, 'fail'),)
    out.append((s, C0))
  if none:
    s = st.copy()
    s.mon = mon + (('read', ev.obj, 'none'),)
    out.append((s, C1))
  for kind, values in messages:
    s = st.copy()
    s.mon = mon + (('read', ev.obj, kind),)
    hook = (C(kind), values)
    saved, I.reading = getattr(I, 'reading', None), hook
    r = I.call_value(lam, s, [mk('LV', F(ev.obj, 'Connection::m_deserializer'))], ev.node)
    I.reading = saved
    for s2, _ in r:
      out.append((s2, C1))
  return out


def wire_call(I, st, ev, messages=(), send_fail=False, **kw):
  r = serializer_hook(I, st, ev)
  if r is None:
    r = send_hook(I, st, ev, send_fail)
  if r is None:
    r = read_hook(I, st, ev, messages, **kw)
  if r is None and getattr(I, 'reading', None):
    r = reader_hook(I, st, ev, *I.reading)
  return r


WIRE = ('send_message', 'read_messages')


def requests_global(P):
  """the settings of the control program and their list of requests"""
  for g in P.globals.values():
    rec = (g.get('t') or {}).get('rec')
    if rec and bare(rec) == 'Settings':
      for f in P.records[rec]['fields']:
        if bare((f['t'] or {}).get('rec') or '') == 'std::vector' and 'Request' in ((f['t'] or {}).get('s') or ''):
          return g, rec + '::' + f['n']
  raise AnalysisError('settings of the control program not found')


def control_run(P, ctx, type_value, messages, on_call=None, types=None, connect=(C0, C1), **kw):
  """runs main of the control program with requests of the given types, the result is [(interp, state, exit code)]"""
  g, field = requests_global(P)
  main = P.find1('main')

  def call(I, st, ev):
    if ev.name == 'interpret_commandline':
      return [(st, C1)]
    if ev.name == 'connect' and ev.cls and bare(ev.cls) == 'Host':
      r = []
      if sum(x[0] == 'connect' for x in st.mon) >= 2:
        return []       # later rounds repeat the first ones
      for ok in connect:
        s = st.copy()
        s.mon = st.mon + (('connect', ok is C1),)
        r.append((s, mk('rec', ZERO, (('Connection::m_socket_fd', C(5) if ok is C1 else C(-1)),))))
      return r
    if on_call:
      r = on_call(I, st, ev)
      if r is not None:
        return r
    return wire_call(I, st, ev, messages, send_fail=True, **kw)
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'connect', *WIRE), on_call=call, cap=300, retcap=300, unroll=4))
  rec = [f for f in P.records if bare(f) == 'Request']
  if len(rec) != 1:
    raise AnalysisError('request record not found')
  rec = rec[0]

  def request(i, tv):
    fs = []
    for f in P.records[rec]['fields']:
      t = f['t'] or {}
      q = rec + '::' + f['n']
      if bare(t.get('enum') or '') == 'RequestType':
        fs.append((q, C(tv)))
      elif bare(t.get('rec') or '') == 'std::optional':
        h, v = mk('PARAM', 'has_timeout', i, 0), mk('PARAM', 'timeout', i, 0)
        I.tr[h] = ((0, 1),)
        fs.append((q, mk('rec', ZERO, ((HAS, h), (VAL, v)))))
      else:
        fs.append((q, mk('PARAM', 'request', f['n'], i)))
    return mk('rec', ZERO, tuple(fs))

  def setup(I, st, args):
    st.env[F(mk('G', g['u']), field)] = mk('list', *[request(i, t) for i, t in enumerate(types or [type_value])])
  r = I.run(main, (), setup=setup)
  ctx.used(I)
  return I, r


def control_args(P, ctx, argv, messages, connect=(C0, C1), reads=None):
  """runs main of the control program with the given arguments (strings are constants), each connection is established or fails"""
  g, field = requests_global(P)
  main = P.find1('main')

  def call(I, st, ev):
    if ev.name == 'connect' and ev.cls and bare(ev.cls) == 'Host':
      if sum(x[0] == 'connect' for x in st.mon) >= 2:
        return []       # later rounds repeat the first ones
      r = []
      for ok in connect:
        s = st.copy()
        s.mon = st.mon + (('connect', ok is C1),)
        r.append((s, mk('rec', ZERO, (('Connection::m_socket_fd', C(5) if ok is C1 else C(-1)),))))
      return r
    if ev.name == 'send_message' and ev.cls and bare(ev.cls) == 'Connection':
      r = send_hook(I, st, ev, True)
      for s, v in r:
        if v is C0:
          s.mon = s.mon + (('sendfail',),)
      return r
    return wire_call(I, st, ev, messages, send_fail=True)
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'connect', 'interpret_commandline', *WIRE) or
      n['k'] == 'Mem' and n.get('q') == field, on_call=call, cap=600, retcap=600, unroll=8,
    inline=lambda I, f: True if f.get('cls') in ('Connection', 'ClientPort') else None))
  I.log_reads = True
  arr = mk('OBJ', 'argv')

  def setup(I, st, args):
    st.env[F(mk('G', g['u']), field)] = mk('list')
    st.env[E(arr, C0)] = mk('s', 'keymapperctl')
    for i, a in enumerate(argv):
      st.env[E(arr, C(i + 1))] = mk('s', a)
    return [C(len(argv) + 1), mk('addr', E(arr, C0))]
  r = I.run(main, (), setup=setup)
  ctx.used(I)
  return I, r

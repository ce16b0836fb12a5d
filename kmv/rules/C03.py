"""C03: every control request is answered exactly once."""
from .common import *
from .wire import *
from .C06 import member, ty

TECHNIQUE = 'path-sensitive abstract interpretation of request handling over the clang AST (exactly-once effect per path, pairing of requests and replies)'
NOTE = ('Two control connections, every message type the control program sends, every key name outcome (unknown, device key, virtual key, alias). '
  'Histories: request, then every event twice.')


def check(ctx):
  PC, P = load('keymapperctl', 'keymapper')
  ctx.rule('waits', 'after each message the control program waits for one kind of reply')
  ctx.rule('immediate', 'each path handling a request sends exactly one reply of the awaited kind to the requesting connection and nothing to others, '
    'or remembers the request')
  ctx.rule('deferred', 'a remembered request is answered exactly once when its event arrives, not by other events and not again')
  pairs = awaited(ctx, PC)
  for kind, reply in sorted(pairs.items()):
    request(ctx, P, kind, reply)
    request(ctx, P, kind, reply, both=True)


def awaited(ctx, P):
  """{request kind: reply kind}, derived from the control program"""
  K = kinds_of(P)
  names = {v: k for k, v in K.items()}
  pairs = {}
  n = 0
  for e in P.enums['RequestType']['e']:
    def vals(t):
      return mk('PARAM', 'received', t, 0)
    progress = set()

    def on_call(I, st, ev):
      if ev.cls == 'Deserializer' and ev.name in ('read', 'read_string') and getattr(I, 'reading', None) and not (
          len(ev.args) == 0 and type_name(ev.c.get('ret')) == 'MessageType'):
        last = [x for x in st.mon if x[0] == 'read']
        progress.add(last[-1][2])
    I, r = control_run(P, ctx, e['v'], [(v, vals) for v in K.values()], on_call=on_call, connect=(C1,), fail=False)
    for st, ret in r:
      log = st.mon
      for i, x in enumerate(log):
        if x[0] != 'msg':
          continue
        if not isc(x[2][0]):
          raise AnalysisError('unknown kind of message sent by the control program')
        n += 1
        kind = x[2][0].a[0]
        for y in log[i + 1:i + 2]:
          if y[0] == 'read' and y[2] in progress:
            pairs.setdefault(kind, set()).add(y[2])
        pairs.setdefault(kind, set())
  for kind, replies in pairs.items():
    ctx.ob('waits', names[kind], len(replies) == 1, P.where(P.find1('main')), 'the control program does not wait for one kind of reply')
  ctx.need('kinds of requests sent by the control program', len(pairs), 7)
  ctx.need('sent messages', n, 20)
  return {k: next(iter(r)) for k, r in pairs.items() if len(r) == 1}


def request(ctx, P, kind, reply, both=False):
  K = kinds_of(P)
  names = {v: k for k, v in K.items()}
  obj = mk('OBJ', 'ClientState')
  control = member(P, 'ClientState', lambda t: t.get('rec') == 'ControlPort', 'control port')
  conns = member(P, 'ControlPort', lambda t: bare(t.get('rec') or '') in ('std::map', 'std::unordered_map', 'std::vector') and 'Control' in ty(t), 'connections')
  list_ = F(F(obj, control), conns)
  crec = [r for r in P.records if r.startswith('ControlPort::') and any((f['t'] or {}).get('rec') == 'Connection' for f in P.records[r]['fields'])]
  if len(crec) != 1:
    raise AnalysisError('record of a control connection not found')
  crec = crec[0]
  conn = member(P, crec, lambda t: t.get('rec') == 'Connection', 'connection')
  socks = [mk('PARAM', 'sock', i, 0) for i in range(2)]
  first = [F(F(E(list_, C(i)), 'std::pair::second'), conn) for i in range(2)]
  step = {'deliver': True}
  keysyms = {}
  virt = ((enum_val(P, 'Key', 'first_virtual'), enum_val(P, 'Key', 'last_virtual')),)

  def values(t):
    v = mk('PARAM', 'received', t, 0)
    if t == 'KeyState':
      I.tr[v] = ((0, 15),)
    return v

  def on_call(I, st, ev):
    if ev.name == 'get_key_by_name':
      out = []
      for n, r in (('none', ((0, 0),)), ('device', ((1, 0x1FF),)), ('virtual', virt)):
        s = st.copy()
        k = mk('PARAM', 'named', n, 0)
        I.tr[k] = r
        s.mon = s.mon + (('name', n),)
        out.append((s, k))
      return out
    if ev.name == 'read_messages' and ev.cls and bare(ev.cls) == 'Connection':
      if ev.obj in (first if both else first[:1]) and step['deliver']:
        return read_hook(I, st, ev, [(kind, values)], fail=False, none=False)
      return [(st, C1)]
    if ev.name in ('connect', 'update', 'load', 'initialize'):
      return None
    return wire_call(I, st, ev)

  I = Interp(P, Spec(interest=lambda n: node_calls(n, *WIRE), on_call=on_call, cap=400, retcap=400, unroll=6,
    inline=lambda I, f: True if f.get('cls') == 'ControlPort' else None))
  for s in socks:
    I.tr[s] = ((0, 1 << 20),)

  def setup(I, st, args):
    st.env[list_] = mk('list', *[mk('rec', ZERO, (('std::pair::first', socks[i]), ('std::pair::second',
      mk('rec', ZERO, ((conn, mk('rec', ZERO, (('Connection::m_socket_fd', socks[i]),))),))))) for i in range(2)])
    I.assume(st, eq(socks[0], socks[1]), False)
  root = method(P, 'ClientState::read_control_messages')
  r = I.run(root, (), obj=obj, setup=setup)
  ctx.used(I)
  if not r:
    raise AnalysisError('no path returns from %s' % root['q'])
  toggled = method(P, 'ClientState::on_virtual_key_state_message')
  info = method(P, 'ClientState::on_next_key_info_message')
  event = toggled if reply == K['virtual_key_state'] else info
  step['deliver'] = False
  counts = {'now': 0, 'later': 0}
  I.stack.append((None, 0, False, None))

  def replies(log, i):
    return [x for x in log if x[0] == 'msg' and x[1] is first[i]]

  server = member(P, 'ClientState', lambda t: t.get('rec') == 'ServerPort', 'server port')
  n_events = 0
  if both:
    together(ctx, P, I, r, obj, event, replies, names[kind], [F(F(E(list_, C(i)), 'std::pair::second'), crec) for i in range(2)], crec, list_)
    I.stack.pop()
    return
  for st, _ in r:
    got = replies(st.mon, 0)
    other = [x for x in st.mon if x[0] == 'msg' and x[1] is not first[0] and not under(x[1], F(obj, server))]
    name = [x[1] for x in st.mon if x[0] == 'name']
    what = '%s%s' % (names[kind], ' with %s key' % name[0] if name else '')
    right = all(isc(x[2][0]) and x[2][0].a[0] == reply for x in got)
    ctx.ob('immediate', what + ': replies to others', not other, P.where(root), 'a message is sent to a connection that made no request')
    if len(got) > 1:
      ctx.ob('immediate', what, False, P.where(root), 'the request is answered more than once')
      continue
    if got:
      counts['now'] += 1
      ctx.ob('immediate', what, right, P.where(root), 'the request is answered with another message than the control program waits for')
    key = pending_key(P, I, st, crec, list_)
    base = st.copy()
    base.mon = ()
    # unrelated events
    for fn, own in ((toggled, False), (info, False), (event, True)):
      s0 = base.copy()
      if fn is toggled:
        k = key if own and key is not None else mk('PARAM', 'other', 'key', 0)
        I.tr.setdefault(k, virt)
        if not own and key is not None and not isc(key):
          I.assume(s0, eq(k, key), False)
        state = mk('PARAM', 'new', 'state', 0)
        I.tr[state] = ((0, 1),)
        args = [k, state]
        if own and not got and key is None:
          ctx.ob('immediate', what, False, P.where(root), 'the request is neither answered nor remembered')
          continue
      else:
        args = [mk('PARAM', 'pressed', 'key', 0), mk('PARAM', 'device', 'desc', 0)]
      expect = 1 if own and not got else 0
      if not own and fn is event and fn is info:
        continue
      for s1, _ in stepwise(I, fn, [s0], obj, lambda s: list(args), ('ev', fn['n'], own)):
        n_events += 1
        m = replies(s1.mon, 0)
        o = [x for x in s1.mon if x[0] == 'msg' and x[1] is not first[0] and not under(x[1], F(obj, server))]
        d = what + ', then %s' % ('the awaited event' if own else fn['n'])
        ctx.ob('deferred', d + ': replies to others', not o, P.where(fn), 'a message is sent to a connection that made no request')
        ctx.ob('deferred' if got or not own else 'immediate', d, len(m) == expect, P.where(fn), 'sends %d instead of %d replies' % (len(m), expect))
        if own and expect:
          counts['later'] += 1
          ctx.ob('deferred', d + ': kind', all(isc(x[2][0]) and x[2][0].a[0] == reply for x in m), P.where(fn), 'answered with another message than awaited')
          for s2, _ in stepwise(I, fn, [s1.copy()], obj, lambda s: list(args), ('again', fn['n'])):
            ctx.ob('deferred', d + ' twice', len(replies(s2.mon, 0)) == len(m), P.where(fn), 'the request is answered again by a later event')
  I.stack.pop()
  ctx.need('answered %s requests' % names[kind], counts['now'] + counts['later'], 1)
  ctx.need('events after %s' % names[kind], n_events, 2)


def together(ctx, P, I, r, obj, event, replies, what, recs, crec, list_):
  """both connections made the same request"""
  n = 0
  for st, _ in r:
    got = [len(replies(st.mon, i)) for i in range(2)]
    keys = [pending_key(P, I, st, crec, list_, i) for i in range(2)]
    if event['n'] == 'on_virtual_key_state_message':
      if keys[0] is None or keys[0] is not keys[1] or any(got):
        continue
      args = [keys[0], mk('PARAM', 'new', 'state', 0)]
      I.tr[args[1]] = ((0, 1),)
    else:
      if any(got):
        continue
      args = [mk('PARAM', 'pressed', 'key', 0), mk('PARAM', 'device', 'desc', 0)]
    s0 = st.copy()
    s0.mon = ()
    for s1, _ in stepwise(I, event, [s0], obj, lambda s: list(args), ('both', event['n'])):
      n += 1
      m = [len(replies(s1.mon, i)) for i in range(2)]
      ctx.ob('deferred', '%s by two connections, then the awaited event' % what, m == [1, 1], P.where(event), 'sends %d and %d instead of one reply each' % tuple(m))
  return n


def pending_key(P, I, st, crec, list_, i=0):
  """the key a connection waits for"""
  for f in P.records[crec]['fields']:
    t = f['t'] or {}
    if bare(t.get('enum') or t.get('s') or '') == 'Key':
      v = I.load(st, F(F(E(list_, C(i)), 'std::pair::second'), crec + '::' + f['n']))
      return None if I.truth(st, eq(v, C0)) is True else v
    if bare(t.get('rec') or '') == 'std::optional' and 'Key' in ty(t):
      v = I.load_whole(st, F(F(E(list_, C(i)), 'std::pair::second'), crec + '::' + f['n']))
      return None if I.truth(st, I.fld(v, HAS)) is False else I.fld(v, VAL)
  raise AnalysisError('no member for an awaited key')

"""C25: daemon and client agree on which virtual keys are on."""
from .common import *
from .wire import *
from .C06 import member, ty, server_fields, reentrance_flags, event

TECHNIQUE = 'path-sensitive abstract interpretation over the clang AST (effect of each path on the set of active keys compared with the reports it sends)'
NOTE = ('Daemon: sets of up to two active virtual keys, unknown key and requested state, every buffered virtual key event, resets. '
  'Client: every report followed by a query of the same and of another key, and by a request.')


def check(ctx):
  PD, PC = load('keymapperd', 'keymapper')
  ctx.rule('reported', 'each path that adds a virtual key to or removes it from the active keys reports that key once with its new state, other paths report nothing')
  ctx.rule('recorded', 'a state reported to the client is what it answers to the next query of that key, and nothing else changes an answer')
  ctx.rule('forwarded', 'a requested state is passed on to the daemon with key and state unchanged')
  daemon(ctx, PD)
  client(ctx, PC)


def virtual_list(P):
  return member(P, 'ServerState', lambda t: bare(t.get('rec') or '') in ('std::vector', 'std::set') and 'Key' in ty(t) and 'KeyEvent' not in ty(t), 'virtual keys')


def daemon(ctx, P):
  obj = mk('OBJ', 'ServerState')
  stage, buf = server_fields(P)
  active = virtual_list(P)
  up, down = enum_val(P, 'KeyState', 'Up'), enum_val(P, 'KeyState', 'Down')
  kv = lambda n: enum_val(P, 'Key', n)
  flush = method(P, 'ServerState::flush_send_buffer')
  reset = method(P, 'ServerState::reset_configuration')
  setter = method(P, 'ServerState::on_set_virtual_key_state_message')
  visited = set()

  def run(what, root, before, mkargs, buffer=False, extra=()):
    def on_call(I, st, ev):
      if ev.cls and is_a(P, 'ClientPort', ev.cls) and ev.name.startswith('send_'):
        if ev.name == 'send_virtual_key_state':
          st.mon = st.mon + ((I.rv(st, ev.args[0]), I.rv(st, ev.args[1])),)
        r = fresh('sent')
        I.tr[r] = ((0, 1),)
        return [(st, r)]
      if ev.cls == 'MultiStage' and ev.name == 'get_output_keys_down':
        return [(st, mk('list'))]
      if ev.cls and is_a(P, ev.cls, 'ServerState'):
        if ev.name == 'translate_input' and root['n'] != 'translate_input':
          return [(st, fresh('translated'))]
        if ev.name == 'flush_send_buffer' and root is setter:
          return [(st, fresh('flushed'))]      # analysed on its own
        if ev.name == 'evaluate_device_filters' or ev.name == 'set_active_contexts':
          return [(st, VOID)]
      return None
    I = Interp(P, Spec(interest=lambda n: n['k'] == 'Mem' and n.get('q') == active, on_call=on_call, cap=300, retcap=300, unroll=8,
      inline=lambda I, f: True if is_a(P, f.get('cls') or '', 'ServerState') and ({active, buf} & set(P.mods(f))) else None))
    k, j = mk('PARAM', 'key', 'k', 0), mk('PARAM', 'key', 'j', 0)
    for x in (k, j):
      I.tr[x] = ((kv('first_virtual'), kv('last_virtual')),)
    state = mk('PARAM', 'state', 's', 0)
    I.tr[state] = ((0, 15),)
    sym = {'k': k, 'j': j}

    def setup(I, st, args):
      st.env[F(obj, active)] = mk('list', *[sym[x] for x in before])
      if buffer:
        e = mk('rec', ZERO, (('KeyEvent::key', k), ('KeyEvent::state', state), ('KeyEvent::value', C0)))
        st.env[F(obj, buf)] = mk('list', e)
      else:
        st.env[F(obj, buf)] = mk('list')
      st.env.update({F(obj, f): C0 for f in reentrance_flags(P)})
      I.assume(st, eq(k, j), False)
      return mkargs(k, state) if mkargs else None
    r = I.run(root, (), obj=obj, setup=setup)
    ctx.used(I)
    visited.update(I.fn_inlined)
    visited.add(root['id'])
    if not r:
      raise AnalysisError('no path returns from %s' % root['q'])
    n = 0
    for st, _ in r:
      after = I.load_whole(st, F(obj, active))
      if after.k != 'list':
        raise AnalysisError('%s: unknown set of active keys' % what)
      had = [sym[x] for x in before]
      expect = [(x, down) for x in after.a if x not in had] + [(x, up) for x in had if x not in after.a]
      got = list(st.mon)
      ok = len(got) == len(expect)
      for x, s in expect:
        ok = ok and sum(1 for a, b in got if a is x and I.truth(st, eq(b, C(s))) is True) == 1
      n += bool(expect)
      ctx.ob('reported', '%s with active keys [%s]' % (what, ' '.join(before)), ok, P.where(root),
        'the active virtual keys change by %d but %d matching reports are sent' % (len(expect), len(got)))
    return n
  n = 0
  for before in ((), ('k',), ('j',), ('j', 'k')):
    n += run('request of a state', setter, before, lambda k, s: [k, s])
    n += run('buffered virtual key event', flush, before, None, buffer=True)
    n += run('reset of the configuration', reset, before, lambda k, s: [mk('ptrto', mk('D', fresh('stage')))])
  ctx.need('paths that change the active keys', n, 6)
  # nothing else changes them
  m = 0
  for f in P.funcs.values():
    if f.get('ctor') or f.get('dtor') or f['id'] in visited:
      continue
    if any(modifies(x, active) for x in P.nodes(f)):
      m += 1
      run('call of %s' % f['q'], f, ('j', 'k'), None)
  ctx.need('functions analysed', len(visited), 3)


def modifies(n, q):
  if n['k'] == 'Call' and n.get('o') is not None and n['o']['k'] == 'Mem' and n['o'].get('q') == q:
    return (callee(n) or {}).get('n') in ('push_back', 'emplace_back', 'erase', 'clear', 'insert', 'emplace', 'operator=', 'assign', 'swap', 'pop_back', 'resize')
  return False


def client(ctx, P):
  K = kinds_of(P)
  obj = mk('OBJ', 'ClientState')
  control = member(P, 'ClientState', lambda t: t.get('rec') == 'ControlPort', 'control port')
  server = member(P, 'ClientState', lambda t: t.get('rec') == 'ServerPort', 'server port')
  conns = member(P, 'ControlPort', lambda t: bare(t.get('rec') or '') in ('std::map', 'std::unordered_map', 'std::vector') and 'Control' in ty(t), 'connections')
  list_ = F(F(obj, control), conns)
  crec = [r for r in P.records if r.startswith('ControlPort::') and any((f['t'] or {}).get('rec') == 'Connection' for f in P.records[r]['fields'])][0]
  conn = member(P, crec, lambda t: t.get('rec') == 'Connection', 'connection')
  sock = mk('PARAM', 'sock', 0, 0)
  here = F(F(E(list_, C0), 'std::pair::second'), conn)
  up, down = enum_val(P, 'KeyState', 'Up'), enum_val(P, 'KeyState', 'Down')
  virt = ((enum_val(P, 'Key', 'first_virtual'), enum_val(P, 'Key', 'last_virtual')),)
  cur = {}

  def on_call(I, st, ev):
    if ev.name == 'get_key_by_name':
      return [(st, cur['named'])]
    if ev.name == 'read_messages' and ev.cls and bare(ev.cls) == 'Connection':
      mine = under(ev.obj, F(obj, server)) if cur['from'] == 'server' else ev.obj is here
      if mine:
        return read_hook(I, st, ev, [cur['message']], fail=False, none=False)
      return [(st, C1)]
    return wire_call(I, st, ev)
  I = Interp(P, Spec(interest=lambda n: node_calls(n, *WIRE), on_call=on_call, cap=400, retcap=400, unroll=6,
    inline=lambda I, f: True if f.get('cls') == 'ControlPort' else None))
  I.tr[sock] = ((0, 1 << 20),)
  k, j = mk('PARAM', 'key', 'k', 0), mk('PARAM', 'key', 'j', 0)
  I.tr[k] = I.tr[j] = virt
  want = mk('PARAM', 'wanted', 'state', 0)
  I.tr[want] = ((0, 15),)
  root = method(P, 'ClientState::read_server_messages')
  ask = method(P, 'ClientState::read_control_messages')
  n = 0

  connected = mk('list', mk('rec', ZERO, (('std::pair::first', sock), ('std::pair::second',
    mk('rec', ZERO, ((conn, mk('rec', ZERO, (('Connection::m_socket_fd', sock),))),))))))

  def setup(I, st, args):
    st.env[list_] = connected if cur['connected'] else mk('list')
    I.assume(st, eq(k, j), False)

  def query(st, key, what):
    """states answered to a query"""
    cur.update({'from': 'control', 'named': key, 'message': (K['get_virtual_key_state'], lambda t: mk('PARAM', 'name', t, 0))})
    s0 = st.copy()
    s0.mon = ()
    I.kill_under(s0, list_)
    s0.env[list_] = connected
    out = []
    for s1, _ in stepwise(I, ask, [s0], obj, lambda s: [], ('query', what)):
      m = [x for x in s1.mon if x[0] == 'msg' and x[1] is here]
      if len(m) != 1 or len(m[0][2]) < 2:
        out.append((s1, None))
      else:
        out.append((s1, m[0][2][-1]))
    if not out:
      raise AnalysisError('query is not answered')
    return out

  def report(st, key, s):
    cur.update({'from': 'server', 'message': (K['virtual_key_state'], lambda t: key if t == 'Key' else C(s) if t == 'KeyState' else None)})
    if st is None:
      return [x for x, _ in I.run(root, (), obj=obj, setup=setup)]
    return [x for x, _ in stepwise(I, root, [st], obj, lambda s: [mk('rec', ZERO, ((HAS, C1), (VAL, C0)))], 'report')]
  I.stack = []
  for hist, cur['connected'] in [(h, c) for h in ((down,), (up,), (down, up), (up, down), (down, down)) for c in (True, False)]:
    states = report(None, k, hist[0])
    I.stack = [(None, 0, False, None)]
    for s in hist[1:]:
      states = [y for x in states for y in report(x, k, s)]
    for st in states:
      what = 'report %s%s' % (', '.join('on' if x == down else 'off' for x in hist), '' if cur['connected'] else ' while no control program is connected')
      for s1, v in query(st, k, 'same'):
        n += 1
        ctx.ob('recorded', what, v is not None and I.truth(s1, eq(v, C(hist[-1]))) is True, P.where(root), 'a query is not answered with the reported state')
      # a request changes nothing until it is reported
      cur.update({'from': 'control', 'named': k, 'message': (K['set_virtual_key_state'], lambda t: want if t == 'KeyState' else mk('PARAM', 'name', t, 0))})
      s0 = st.copy()
      s0.mon = ()
      I.kill_under(s0, list_)
      s0.env[list_] = connected
      for s1, _ in stepwise(I, ask, [s0], obj, lambda s: [], 'set'):
        m = [x for x in s1.mon if x[0] == 'msg' and under(x[1], F(obj, server))]
        ctx.ob('forwarded', what + ', then request', len(m) == 1 and len(m[0][2]) == 3 and m[0][2][0] is C(K['set_virtual_key_state']) and
          m[0][2][1] is k and m[0][2][2] is want, P.where(ask), 'the request is not passed on unchanged exactly once')
        for s2, v in query(s1, k, 'after'):
          n += 1
          ctx.ob('recorded', what + ', then request', v is not None and I.truth(s2, eq(v, C(hist[-1]))) is True, P.where(ask),
            'a query is answered with a state the daemon did not report')
      # another key
      for s1 in report(st.copy(), j, up if hist[-1] == down else down):
        for s2, v in query(s1, k, 'other'):
          n += 1
          ctx.ob('recorded', what + ', then report of another key', v is not None and I.truth(s2, eq(v, C(hist[-1]))) is True, P.where(root),
            'the state of another key is answered')
    I.stack = []
  ctx.used(I)
  ctx.need('queries answered', n, 12)

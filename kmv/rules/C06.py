"""C06: keys held down are released before configuration or devices go away."""
from .common import *

TECHNIQUE = 'path-sensitive abstract interpretation of configuration resets and of the session loop over the clang AST (must-precede, typestate)'
NOTE = ('Buffered output is abstracted as lists of up to four events of given kinds (device key, wheel, timeout, action, virtual key) with unknown contents, the held keys as a list of two unknown device keys; '
  'every outcome of sending is considered. The session loop is analysed without bound.')


def member(P, cls, pred, what):
  fs = [f['n'] for f in P.records[cls]['fields'] if pred(f['t'] or {})]
  if len(fs) != 1:
    raise AnalysisError('%s::%s: %d candidates' % (cls, what, len(fs)))
  return cls + '::' + fs[0]


def ty(t):
  return (t.get('s') or '') + ' ' + (t.get('rec') or '')


def server_fields(P):
  return (member(P, 'ServerState', lambda t: bare(t.get('rec') or '') == 'std::unique_ptr' and 'MultiStage' in ty(t), 'engine'),
    member(P, 'ServerState', lambda t: bare(t.get('rec') or '') in ('std::vector', 'std::deque') and 'KeyEvent' in ty(t) or
      t.get('rec') == 'KeySequence', 'output buffer'))


def reentrance_flags(P):
  """members that tell whether output is being sent"""
  out = set()
  flush = method(P, 'ServerState::flush_send_buffer')
  for f in [flush] + list(P.reach(flush).values()):
    if out:
      break
    for n in P.nodes(f):
      if n['k'] == 'Bin' and n['op'] == '=' and n['a']['k'] == 'Mem' and (n['a'].get('q') or '').startswith('ServerState::') and (n['a'].get('t') or {}).get('bool'):
        out.add(n['a']['q'])
  return sorted(out)


PATTERNS = ('', 'K', 'T', 'A', 'KTK', 'TT')
MORE = ('V', 'W', 'KK', 'TKT', 'TTT', 'KATK')


def devkey(P, I, name):
  k = mk('PARAM', 'key', name, 0)
  w = [enum_val(P, 'Key', x) for x in ('WheelUp', 'WheelRight')]
  I.tr[k] = ((1, w[0] - 1), (w[1] + 1, enum_val(P, 'Key', 'last_keyboard_key')))
  return k


def anyevent(I, name):
  """an event of unknown kind"""
  k, s, v = (mk('PARAM', 'event', name, x) for x in ('key', 'state', 'value'))
  I.tr[k], I.tr[s], I.tr[v] = ((1, 0xFFFF),), ((0, 15),), ((0, 4095),)
  return mk('rec', ZERO, (('KeyEvent::key', k), ('KeyEvent::state', s), ('KeyEvent::value', v)))


def event(P, I, name, kind):
  """K: device key, W: wheel, T: timeout, A: action, V: virtual key"""
  e = anyevent(I, name)
  k, s = I.fld(e, 'KeyEvent::key'), I.fld(e, 'KeyEvent::state')
  kv = lambda n: enum_val(P, 'Key', n)
  if kind == 'K':
    I.tr[k] = ((1, kv('WheelUp') - 1), (kv('WheelRight') + 1, kv('last_keyboard_key')))
  elif kind == 'W':
    I.tr[k] = ((kv('WheelUp'), kv('WheelRight')),)
  elif kind == 'T':
    I.tr[k] = ((kv('timeout'), kv('timeout')),)
  elif kind == 'A':
    I.tr[k] = ((kv('first_action'), kv('last_action')),)
  elif kind == 'V':
    I.tr[k] = ((kv('first_virtual'), kv('last_virtual')),)
  I.tr[s] = ((enum_val(P, 'KeyState', 'Up'), enum_val(P, 'KeyState', 'Down')),)
  return e


def check(ctx):
  P = load('keymapperd')
  ctx.rule('release', 'whenever the engine is replaced, a release of every key it reported as held was handed to the sending hook before, '
    'or sending failed')
  ctx.rule('drained', 'when a reset of the configuration returns, the output buffer is empty')
  ctx.rule('held', 'the keys reported as held are the device keys recorded as down by the stage that produces the output')
  ctx.rule('session', 'the virtual devices are not destroyed between an operation that can produce output and the following reset of the configuration')
  reset(ctx, P)
  held(ctx, P)
  session(ctx, P)


def reset(ctx, P):
  stage, buf = server_fields(P)
  obj = mk('OBJ', 'ServerState')
  up = enum_val(P, 'KeyState', 'Up')
  roots = [(method(P, 'ServerState::reset_configuration'), 'reset'), (method(P, 'ServerState::on_configuration_message'), 'message'),
    (method(P, 'ServerState::translate_input'), 'exit')]
  writers = set()
  for root, kind in roots:
    for pat in (PATTERNS + MORE if ctx.thorough else PATTERNS) if kind == 'reset' else ('T',):
      replaced = []
      I = Interp(P, None)
      held = [devkey(P, I, 'held%d' % i) for i in range(2)]

      def on_call(I, st, ev):
        if ev.name == 'get_output_keys_down' and ev.cls == 'MultiStage':
          st.mon = (frozenset(), st.mon[1], st.mon[2])
          return [(st, mk('list', *held))]
        if ev.name == 'on_send_key' and is_a(P, ev.cls, 'ServerState'):
          e = I.rv(st, ev.args[0])
          k, s = I.fld(e, 'KeyEvent::key'), I.fld(e, 'KeyEvent::state')
          s2 = st.copy()
          s2.mon = (st.mon[0], 1, st.mon[2])
          for i, h in enumerate(held):
            if I.truth(st, eq(k, h)) is True and I.truth(st, eq(s, C(up))) is True:
              st.mon = (st.mon[0] | {i}, st.mon[1], st.mon[2])
          return [(st, C1), (s2, C0)]
        if ev.cls and is_a(P, 'ClientPort', ev.cls) and ev.name.startswith('send_'):
          return [(st, fresh(ev.name))]
        if ev.name == 'reset_configuration' and kind != 'reset' and is_a(P, ev.cls, 'ServerState'):
          # decided by its own run
          replaced.append(True)
          st.mon = (frozenset((0, 1)), st.mon[1], 1)
          I.havoc_fields(st, P.mods(roots[0][0]))
          s2 = st
          s2.env[F(obj, buf)] = mk('list')
          return [(st, VOID)]
        if ev.name == 'should_exit' and ev.cls == 'MultiStage':
          if kind == 'exit':
            st.mon = (st.mon[0], st.mon[1], st.mon[2] or 'due')
          return [(st, C1)]        # only the exit is of interest here
        if ev.name == 'update' and ev.cls == 'MultiStage':
          return [(st, mk('list', event(P, I, 'out', 'K')))]
        if ev.name == 'set_active_client_contexts' and ev.cls == 'MultiStage':
          return [(st, mk('list'))]       # output of the new engine
        if ev.name == 'translate_input' and is_a(P, ev.cls, 'ServerState'):
          # a separate event; its output is subject to later resets
          return [(st, fresh(ev.name))]

      def on_write(I, st, loc, val, node):
        if loc.k == 'F' and loc.a[1] == stage and loc.a[0] is obj:
          ok = st.mon[0] == frozenset((0, 1)) or bool(st.mon[1])
          replaced.append(ok)
          w = at(I, node) if node and node.get('_f') else P.where(root)
          writers.add(w)
          ctx.ob('release', '%s with buffer [%s]' % (root['q'], pat), ok, w,
            'the engine is replaced although the release of a held key was not handed to the device')
          st.mon = (st.mon[0], st.mon[1], 1)

      if kind == 'reset':
        I.rule = Spec(interest=lambda n: node_calls(n, 'get_output_keys_down', 'on_send_key') or n['k'] == 'Mem' and n.get('q') in (stage, buf),
          on_call=on_call, on_write=on_write, cap=400, retcap=400, unroll=12)
      else:
        I.rule = Spec(interest=lambda n: node_calls(n, 'reset_configuration', 'on_exit_requested'), on_call=on_call, on_write=on_write)

      def setup(I, s, args):
        s.env[F(obj, buf)] = mk('list', *[event(P, I, 'b%d' % i, x) for i, x in enumerate(pat)])
        s.env.update({F(obj, f): C0 for f in reentrance_flags(P)})
        if kind == 'message':
          return [mk('ptrto', mk('D', fresh('stage')))]
      I.stack = []
      r = I.run(root, (frozenset(), 0, 0), obj=obj, setup=setup)
      ctx.used(I)
      ctx.need('engine replacements reached from %s' % root['q'], len(replaced), 1)
      if kind != 'exit':
        ctx.ob('release', '%s replaces the engine' % root['q'], all(s.mon[2] for s, _ in r) and bool(r), P.where(root),
          'a path returns without having replaced the engine')
      for st, v in r:
        if kind == 'exit':
          ctx.ob('release', 'emergency exit', st.mon[2] != 'due', P.where(root), 'the exit combination was recognised but held keys are not released')
          continue
        n = I.sizeterm(st, F(obj, buf))
        ctx.ob('drained', '%s with buffer [%s]' % (root['q'], pat), I.truth(st, eq(n, C0)) is True, P.where(root),
          'output of the previous configuration can remain in the buffer')
  # nothing else replaces the engine
  mine = {f['id'] for f, _ in roots}
  for f in P.funcs.values():
    if f.get('cls') and is_a(P, f['cls'], 'ServerState') and not f.get('ctor') and not f.get('dtor') and stage_written(P, f, stage):
      ctx.ob('release', 'engine replaced in %s' % f['q'], any(f['q'] in w for w in writers) or
        all(g['id'] in mine for g in [f]), P.where(f), 'the engine is replaced outside of the analysed resets')


def stage_written(P, f, stage):
  for n in P.nodes(f):
    if n['k'] == 'Call' and callee(n) and callee(n)['n'] in ('operator=', 'reset', 'swap') and n.get('o') is not None \
        and n['o']['k'] == 'Mem' and n['o'].get('q') == stage:
      return True
  return False


def held(ctx, P):
  # multi-stage: the keys of the last stage
  fn = method(P, 'MultiStage::get_output_keys_down')
  from .C05 import stage_list
  stages = stage_list(P)
  obj = mk('OBJ', 'MultiStage')
  ptr = [mk('PARAM', 'stage', i, 0) for i in range(3)]
  res = [mk('PARAM', 'keys', i, 0) for i in range(3)]

  def on_call(I, st, ev):
    if ev.name == 'get_output_keys_down' and ev.cls == 'Stage':
      for p, k in zip(ptr, res):
        if ev.obj is deref(p):
          return [(st, k)]
      return [(st, fresh('keys'))]
  for n in (1, 2, 3):
    I = Interp(P, Spec(interest=lambda n: node_calls(n, 'get_output_keys_down'), on_call=on_call))
    for p in ptr:
      I.tr[p] = ((1, 1 << 60),)
    r = I.run(fn, None, obj=obj, setup=lambda I, s, a: s.env.update({F(obj, stages): mk('list', *ptr[:n])}))
    ctx.used(I)
    ctx.ob('held', 'multi-stage with %d stages' % n, bool(r) and all(v is res[n - 1] for _, v in r), P.where(fn),
      'does not report the held keys of the last stage')
  # stage: all recorded device keys
  fn = method(P, 'Stage::get_output_keys_down')
  down = member(P, 'Stage', lambda t: bare(t.get('rec') or '') == 'std::vector' and 'OutputDown' in ty(t), 'held keys')
  obj = mk('OBJ', 'Stage')
  I = Interp(P, Spec(interest=lambda n: n['k'] == 'Mem' and n.get('q') == down, cap=100, retcap=100, unroll=4))
  ks = [devkey(P, I, 'o%d' % i) for i in range(2)]
  recs = []
  for i, k in enumerate(ks):
    fs = [('Stage::OutputDown::key', k)]
    for f in P.records['Stage::OutputDown']['fields']:
      if (f['t'] or {}).get('bool'):
        x = mk('PARAM', 'flag', f['n'], i)
        I.tr[x] = ((0, 1),)
        # a key that is temporarily released was already sent as released
        fs.append(('Stage::OutputDown::' + f['n'], C0 if 'released' in f['n'] else x))
    recs.append(mk('rec', mk('PARAM', 'down', i, 0), tuple(fs)))
  r = I.run(fn, None, obj=obj, setup=lambda I, s, a: s.env.update({F(obj, down): mk('list', *recs)}))
  ctx.used(I)
  ok = bool(r)
  for st, v in r:
    have = set(v.a) if v.k == 'list' else set()
    ok = ok and set(ks) <= have
  ctx.ob('held', 'stage with two held device keys', ok, P.where(fn), 'a held device key is not reported')


def session(ctx, P):
  main = P.find1('main')
  seen = {'reset': 0, 'destroy': 0, 'out': 0}
  vd = [g for g in P.globals.values() if (g.get('t') or {}).get('rec') == 'VirtualDevices']
  ctx.need('virtual device sets', len(vd), 1)
  OUT = ('translate_input', 'read_client_messages', 'flush_send_buffer', 'set_device_descs')

  drivers = {f['id'] for n in OUT + ('reset_configuration',) for f in impls(P, 'ServerState::' + n)}
  drivers |= {method(P, 'VirtualDevices::create_keyboard_device')['id']}

  def destroy(I, st, node):
    seen['destroy'] += 1
    ctx.ob('session', 'destroying virtual devices at %s' % at(I, node), st.mon != 'dirty', at(I, node),
      'the virtual devices are destroyed while keys may still be held down: the configuration was not reset before')
    st.mon = 'gone'

  def on_call(I, st, ev):
    if ev.cls and is_a(P, ev.cls, 'ServerState'):
      if ev.name in OUT:
        seen['out'] += 1
        if st.mon in ('created', 'clean'):
          st.mon = 'dirty'
        if ev.name == 'translate_input':
          s2 = st.copy()
          out = [(st, fresh('b'))]
          for h in impls(P, 'ServerState::on_exit_requested'):
            out += [(s3, C1) for s3, _ in I.invoke(h, s2, ev.obj, [], ev.node)]
          return out
        v = fresh(ev.name)
        I.settype(v, ev.c.get('ret'))
        return [(st, v)]
      if ev.name == 'reset_configuration':
        seen['reset'] += 1
        if st.mon == 'dirty':
          st.mon = 'clean'
        return [(st, VOID)]
      if ev.name in ('has_configuration', 'has_mouse_mappings', 'should_exit', 'flush_scheduled_at', 'timeout_start_at', 'version_mismatch',
          'accept_client_connection', 'timeout', 'cancel_timeout', 'disconnect'):
        return None
    if ev.cls == 'VirtualDevices':
      if ev.name == 'create_keyboard_device':
        s2 = st.copy()
        destroy(I, st, ev.node)
        st.mon = 'created'
        s2.mon = 'gone'
        return [(st, C1), (s2, C0)]
      if ev.name == 'operator=':
        destroy(I, st, ev.node)
        return [(st, fresh('vd'))]
      if ev.name == '~VirtualDevices':
        return [(st, VOID)]
    return None
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'reset_configuration', 'create_keyboard_device', 'on_exit_requested', *OUT) or
      (callee(n) or {}).get('q') == 'VirtualDevices::operator=',
    on_call=on_call, inline=lambda I, f: False if P.rel(f) != P.rel(main) and not (P.reach(f).keys() & drivers) else None))
  r = I.run(main, 'gone')
  ctx.used(I)
  ctx.need('resets in the session loop', seen['reset'], 1)
  ctx.need('destructions of virtual devices', seen['destroy'], 1)
  ctx.need('operations producing output', seen['out'], 3)
  for st, v in r:
    ctx.ob('session', 'end of the program', st.mon != 'dirty', P.where(main), 'the program ends while keys may still be held down')

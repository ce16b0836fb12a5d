"""C08: only real key press and release events reach the operating system."""
from .common import *
from .C06 import server_fields, anyevent, event, reentrance_flags, devkey

TECHNIQUE = 'path-sensitive abstract interpretation of the output path over the clang AST (value ranges at the sink, effects per kind of event)'
NOTE = ('Every kind of buffered event with unknown key, state and value in its range, alone and followed by another event; all outcomes of sending. '
  'Functions other than the flush that reach the sending hook are analysed with unknown arguments.')


ENTRY = ('translate_input', 'reset_configuration', 'set_device_descs', 'on_configuration_message', 'on_directives_message', 'on_active_contexts_message',
  'on_set_virtual_key_state_message', 'on_validate_state_message', 'on_request_next_key_info_message', 'on_inject_input_message',
  'on_inject_output_message', 'on_grab_device_filters_message')


def check(ctx):
  P = load('keymapperd')
  ctx.rule('sink', 'at every call of the sending hook the key is in the range of device keys and the state is Up or Down')
  ctx.rule('sent', 'every buffered press or release of a device key is handed to the hook exactly once and in order, wheel releases likewise')
  ctx.rule('action', 'an action key is reported to the client exactly once per press with its index counted from the first action key, never on release')
  ctx.rule('virtual', 'a virtual key toggles on press only and is never handed to the hook')
  ctx.rule('timeout', 'a timeout ends the flush, schedules the next one and leaves exactly the events behind it in the buffer')
  ctx.rule('rest', 'pseudo keys and other states are skipped and the rest of the buffer is processed')
  seen = flush(ctx, P)
  others(ctx, P, seen)


def kinds(P, I):
  kv = lambda n: enum_val(P, 'Key', n)
  up, down = enum_val(P, 'KeyState', 'Up'), enum_val(P, 'KeyState', 'Down')
  both, rest = ((up, down),), tuple(x for x in ((0, up - 1), (down + 1, 15)) if x[0] <= x[1])
  dev = (((1, kv('WheelUp') - 1), (kv('WheelRight') + 1, kv('last_keyboard_key'))))
  wheel = ((kv('WheelUp'), kv('WheelRight')),)
  act = ((kv('first_action'), kv('last_action')),)
  virt = ((kv('first_virtual'), kv('last_virtual')),)
  t = kv('timeout')
  pseudo = ((0, 0), (kv('last_keyboard_key') + 1, t - 1), (t + 1, kv('first_virtual') - 1), (kv('last_action') + 1, 0xFFFF))
  return {
    'key press': (dev, ((down, down),)), 'key release': (dev, ((up, up),)), 'key in other state': (dev, rest),
    'wheel release': (wheel, ((up, up),)), 'wheel press': (wheel, ((down, down),)), 'wheel in other state': (wheel, rest),
    'action press': (act, ((down, down),)), 'action not pressed': (act, ((up, up),) + rest if rest[0][0] > up else rest),
    'virtual press': (virt, ((down, down),)), 'virtual not pressed': (virt, ((up, up),) + rest),
    'timeout': (((t, t),), ((0, 15),)), 'pseudo key': (pseudo, ((0, 15),)),
  }


def flush(ctx, P):
  stage, buf = server_fields(P)
  obj = mk('OBJ', 'ServerState')
  root = method(P, 'ServerState::flush_send_buffer')
  first_action = enum_val(P, 'Key', 'first_action')
  seen = {'send': set()}

  def on_call(I, st, ev):
    if ev.name == 'on_send_key' and is_a(P, ev.cls, 'ServerState'):
      e = I.rv(st, ev.args[0])
      k, s = I.fld(e, 'KeyEvent::key'), I.fld(e, 'KeyEvent::state')
      seen['send'].add(at(I, ev.node))
      sink(ctx, P, I, st, ev, k, s)
      s2 = st.copy()
      s2.mon = st.mon + (('fail', k, s, I.fld(e, 'KeyEvent::value')),)
      st.mon = st.mon + (('send', k, s, I.fld(e, 'KeyEvent::value')),)
      return [(st, C1), (s2, C0)]
    if ev.cls and is_a(P, 'ClientPort', ev.cls):
      if ev.name == 'send_triggered_action':
        st.mon = st.mon + (('action', I.rv(st, ev.args[0])),)
        return [(st, fresh('sent'))]
      if ev.name == 'send_virtual_key_state':
        st.mon = st.mon + (('vstate', I.rv(st, ev.args[0])),)
        return [(st, fresh('sent'))]
    if ev.name == 'translate_input' and is_a(P, ev.cls, 'ServerState'):
      st.mon = st.mon + (('input', I.fld(I.rv(st, ev.args[0]), 'KeyEvent::key')),)
      return [(st, fresh(ev.name))]

  from .C06 import member, ty
  virt_list = member(P, 'ServerState', lambda t: bare(t.get('rec') or '') == 'std::vector' and 'Key' in ty(t) and 'KeyEvent' not in ty(t), 'virtual keys')
  I0 = Interp(P, None)
  total = 0
  for name, (kr, sr) in kinds(P, I0).items():
    for tail in (False, True):
     for on in ((False, True) if name.startswith('virtual') else (False,)):
      I = Interp(P, Spec(interest=lambda n: node_calls(n, 'on_send_key') or n['k'] == 'Mem' and n.get('q') == buf,
        on_call=on_call, cap=200, retcap=200, unroll=12,
        inline=lambda I, f: True if is_a(P, f.get('cls') or '', 'ServerState') else None))
      e = anyevent(I, 'e')
      k, s, v = (I.fld(e, 'KeyEvent::' + x) for x in ('key', 'state', 'value'))
      I.tr[k], I.tr[s] = kr, sr
      t = event(P, I, 'tail', 'K')
      tk = I.fld(t, 'KeyEvent::key')
      I.tr[I.fld(t, 'KeyEvent::state')] = ((1, 1),)

      def setup(I, st, args):
        st.env[F(obj, buf)] = mk('list', *([e, t] if tail else [e]))
        st.env.update({F(obj, f): C0 for f in reentrance_flags(P)})
        st.env[F(obj, virt_list)] = mk('list', k) if on else mk('list')
      r = I.run(root, (), obj=obj, setup=setup)
      ctx.used(I)
      total += len(r)
      what = '%s%s%s' % (name, ' followed by a key' if tail else '', ' (on)' if on else '')
      bad = None
      if not r:
        raise AnalysisError('%s: no path returns' % root['q'])
      for st, ret in r:
        log = list(st.mon)
        rule = 'rest'
        rest = log
        if name in ('key press', 'key release', 'wheel release'):
          rule = 'sent'
          if not rest or rest[0][0] not in ('send', 'fail') or not (rest[0][1] is k and rest[0][2] is s and rest[0][3] is v):
            bad = bad or (rule, 'the event is not handed to the device first')
            continue
          if rest[0][0] == 'fail':
            if len(rest) > 1 or I.truth(st, ret) is not False:
              bad = bad or (rule, 'sending continues or success is reported after a failure')
            continue
          rest = rest[1:]
        elif name == 'action press':
          rule = 'action'
          if not rest or rest[0][0] != 'action' or not same_index(I, st, rest[0][1], k, first_action):
            bad = bad or (rule, 'the action is not reported with its index')
            continue
          rest = rest[1:]
        elif name == 'virtual press':
          rule = 'virtual'
          if [x[0] for x in rest[:2]] not in (['input', 'vstate'], ['vstate', 'input']) or not all(x[1] is k for x in rest[:2]):
            bad = bad or (rule, 'the virtual key is not toggled')
            continue
          rest = rest[2:]
        elif name == 'timeout':
          rule = 'timeout'
          if rest or not scheduled(P, I, st, obj):
            bad = bad or (rule, 'output is sent without waiting for the timeout or no flush is scheduled')
            continue
          left = I.sizeterm(st, F(obj, buf))
          b = I.load(st, F(obj, buf))
          if not (b.k == 'list' and (len(b.a) == 1 and I.fld(b.a[0], 'KeyEvent::key') is tk if tail else not b.a)):
            bad = bad or (rule, 'the events behind the timeout are not kept')
          continue
        elif name.startswith('action'):
          rule = 'action'
        elif name.startswith('virtual'):
          rule = 'virtual'
        # only the tail may follow
        if tail:
          if len(rest) != 1 or rest[0][0] not in ('send', 'fail') or rest[0][1] is not tk:
            bad = bad or (rule, 'the following event is not sent exactly once')
        elif rest:
          bad = bad or (rule, 'something else is sent or reported')
      ctx.ob(bad[0] if bad else rule_of(name), what, bad is None, P.where(root), bad[1] if bad else '')
  ctx.need('call sites of the sending hook', len(seen['send']), 1)
  ctx.need('paths of the flush', total, 40)
  return seen['send']


def scheduled(P, I, st, obj):
  """a time for the next flush is set"""
  I.stack.append((None, 0, False, None))
  r = stepwise(I, method(P, 'ServerState::flush_scheduled_at'), [st.copy()], obj, lambda s: [], 'sched')
  I.stack.pop()
  return bool(r) and all(I.truth(s, I.fld(v, HAS)) is True for s, v in r)


def rule_of(name):
  return {'key press': 'sent', 'key release': 'sent', 'wheel release': 'sent', 'timeout': 'timeout'}.get(name,
    'action' if name.startswith('action') else 'virtual' if name.startswith('virtual') else 'rest')


def same_index(I, st, x, k, base):
  return I.truth(st, eq(x, add(k, C(-base)))) is True


def sink(ctx, P, I, st, ev, k, s):
  lo, hi = 1, enum_val(P, 'Key', 'last_keyboard_key')
  up, down = enum_val(P, 'KeyState', 'Up'), enum_val(P, 'KeyState', 'Down')
  ki, si = I.interval(st, k), I.interval(st, s)
  ok = bool(ki) and ki[0][0] >= lo and ki[-1][1] <= hi and bool(si) and si[0][0] >= up and si[-1][1] <= down
  ctx.ob('sink', 'call of the sending hook at %s' % at(I, ev.node), ok, at(I, ev.node),
    'an event that is not a press or release of a device key can be handed to the device')


def others(ctx, P, seen):
  """paths to the sending hook that do not go through the flush"""
  flush_fn = method(P, 'ServerState::flush_send_buffer')
  hook = {f['id'] for f in impls(P, 'ServerState::on_send_key')}
  n = 0
  for f in P.funcs.values():
    for x in P.nodes(f):
      c = callee(x) if x['k'] == 'Call' else None
      if c is None:
        continue
      if c['n'] == 'send_key_event' and f['id'] not in hook and not (f.get('cls') or '').startswith('VirtualDevices'):
        ctx.ob('sink', 'caller of the virtual device %s' % f['q'], False, P.where(f), 'the virtual device is written to outside of the sending hook')
      if c['n'] != 'on_send_key':
        continue
      n += 1
      w = '%s:%s (%s)' % (P.rel(f), x['l'], f['q'])
      if w in seen:
        continue
      # analysed from the entry points that lead to it
      roots = [g for g in P.funcs.values() if is_a(P, g.get('cls') or '', 'ServerState') and g['id'] != flush_fn['id'] and
        (g['id'] == f['id'] or f['id'] in P.reach(g)) and g['n'] in ENTRY]
      hit = set()

      def on_call(I, st, ev):
        if ev.name == 'flush_send_buffer':
          return [(st, fresh('flushed'))]
        if ev.name == 'translate_input' and len(I.stack) > 1:
          return [(st, fresh('translated'))]
        if ev.name == 'on_send_key':
          e = I.rv(st, ev.args[0])
          hit.add(at(I, ev.node))
          sink(ctx, P, I, st, ev, I.fld(e, 'KeyEvent::key'), I.fld(e, 'KeyEvent::state'))
          return [(st, fresh('sent'))]
      for g in roots:
        I = Interp(P, Spec(interest=lambda n: node_calls(n, 'on_send_key'), on_call=on_call))
        I.run(g, (), obj=mk('OBJ', 'ServerState'))
        ctx.used(I)
      if w not in hit:
        raise AnalysisError('call of the sending hook not reached: %s' % w)
  ctx.need('calls of the sending hook', n, 1)

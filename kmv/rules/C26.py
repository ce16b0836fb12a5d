"""C26: every event of a grabbed device is translated or forwarded."""
from .common import *
from ..stdmodel import opt_some, OPT_NONE

TECHNIQUE = 'abstract interpretation of the daemon over the clang AST (typestate of each read event, value identity of its device, type, code and value)'
NOTE = ('Main function with every outcome of reading, converting, sending and device updates; reading, converting and sending for a symbolic event of each of '
  'three devices with every outcome of the system calls. Range conversion of the two absolute axes of keyboards is not examined.')

FIRST, SECOND = 'std::pair::first', 'std::pair::second'
EV_SYN, EV_KEY, EV_REL, EV_ABS = 0, 1, 2, 3
REL_HWHEEL, REL_WHEEL, REL_WHEEL_HI_RES, REL_HWHEEL_HI_RES = 6, 8, 11, 12
ABS_VOLUME, ABS_MISC = 32, 40
ERRNO = mk('OBJ', 'errno')
EINTR, EIO = 4, 5
DEVICES = 3
EVENT = ('device_index', 'type', 'code', 'value')


def check(ctx):
  P = load('keymapperd')
  ctx.rule('loop', 'before the next event is read, the last one was translated (with its device) or forwarded (with its device, type, code and value)')
  ctx.rule('ends', 'after a failure of reading, sending or of updating the mirror devices nothing more is read in this session')
  ctx.rule('devices', 'whenever the grabbed devices changed, the mirror devices and the device descriptions are updated before the next event is read')
  ctx.rule('read', 'an event read from the n-th device is returned with index n, its type, code and value (low-resolution wheel steps of devices without high '
    'resolution are returned as high-resolution steps)')
  ctx.rule('convert', 'key events become events of the key with the same number and state, high-resolution wheel events wheel events; everything else is forwarded '
    '(except low-resolution duplicates of wheel events)')
  ctx.rule('forward', 'a forwarded event is written with its type, code and value to the mirror of its device')
  ctx.rule('send', 'a key event is written with the code of its key and the value of its state, followed by a synchronisation event')
  ctx.rule('describe', 'after an update of the grabbed devices the n-th description is the one of the n-th device')
  ctx.rule('mirror', 'the n-th mirror set up is the one of the n-th described device (or the virtual keyboard if it needs none)')
  loop(ctx, P)
  reading(ctx, P)
  converting(ctx, P)
  forwarding(ctx, P)
  sending(ctx, P)
  descriptions(ctx, P)
  mirrors(ctx, P)


def symbolic_event(i=0, index=None):
  f = lambda n: mk('PARAM', 'event', n, i)
  return mk('rec', ZERO, tuple(('GrabbedDevices::Event::' + n, index if n == 'device_index' and index is not None else f(n)) for n in EVENT))


def of_event(I, st, v, n):
  return I.fld(v, 'GrabbedDevices::Event::' + n)


# ------------------------------------------------------------------ main loop

def loop(ctx, P):
  main = P.find1('main')
  seen = {'read': 0, 'translate': 0, 'forward': 0, 'update': 0}
  converted = mk('PARAM', 'converted', 'event', 0)
  event = symbolic_event()
  server = lambda ev: ev.cls and is_a(P, ev.cls, 'ServerState')

  # mon: (event pending, failed, stale)
  def on_call(I, st, ev):
    pending, bad, stale = st.mon
    if ev.cls == 'GrabbedDevices' and ev.name == 'read_input_event':
      seen['read'] += 1
      ctx.ob('loop', 'no event is dropped', not pending, at(I, ev.node), 'the next event is read although the last one was neither translated nor forwarded')
      ctx.ob('ends', 'nothing is read after a failure', bad is None, at(I, ev.node), 'events are read after a failure of %s' % bad)
      ctx.ob('devices', 'devices are updated before reading', not stale, at(I, ev.node), 'events are read although %s not updated' %
        ' and '.join(sorted(stale)))
      out = []
      for ok, e, p, b in ((C1, opt_some(event), True, None), (C1, OPT_NONE, False, None), (C0, OPT_NONE, False, 'reading')):
        s = st.copy()
        s.mon = (p, b, frozenset())
        out.append((s, mk('rec', ZERO, ((FIRST, ok), (SECOND, e)))))
      return out
    if ev.name == 'to_key_event' and not ev.cls:
      a, b, c = st.copy(), st.copy(), st
      none = C(enum_val(P, 'Key', 'none'))
      k = I.fld(converted, 'KeyEvent::key')
      out = []
      if I.assume(a, eq(k, none), True):
        a.mon = (False, bad, stale)    # a duplicate which is not to be used
        out.append((a, opt_some(converted)))
      if I.assume(b, eq(k, none), False):
        b.mon = ('key' if pending else False, bad, stale)
        out.append((b, opt_some(converted)))
      c.mon = ('other' if pending else False, bad, stale)
      return out + [(c, OPT_NONE)]
    if server(ev) and ev.name == 'translate_input':
      seen['translate'] += 1
      v, dev = I.rv(st, ev.args[0]), I.rv(st, ev.args[1])
      if v is converted:
        ctx.ob('loop', 'translated with its device', dev is of_event(I, st, event, 'device_index'), at(I, ev.node), 'an event is translated as one of another device')
        ctx.ob('loop', 'translated once', pending == 'key', at(I, ev.node), 'an event is translated twice')
        st.mon = (False, bad, stale)
      return [(st, fresh('translated'))]
    if ev.cls == 'VirtualDevices' and ev.name == 'forward_event':
      seen['forward'] += 1
      args = [I.rv(st, a) for a in ev.args]
      ctx.ob('loop', 'forwarded unchanged', args == [of_event(I, st, event, n) for n in EVENT], at(I, ev.node),
        'an event is forwarded with another device, type, code or value')
      ctx.ob('loop', 'only other events are forwarded', pending == 'other', at(I, ev.node), 'an event is forwarded which is also translated')
      s = st.copy()
      s.mon = st.mon = (False, bad, stale)
      return [(st, C1), (s, C0)]
    if server(ev) and ev.name in ('flush_send_buffer', 'read_client_messages') or ev.cls == 'VirtualDevices' and ev.name == 'create_keyboard_device':
      s = st.copy()
      s.mon = (pending, 'sending', stale) if ev.name != 'read_client_messages' else (pending, 'receiving', stale)
      return [(st, C1), (s, C0)]
    if ev.cls == 'GrabbedDevices' and ev.name in ('update_devices', 'grab'):
      seen['update'] += 1
      s = st.copy()
      s.mon = (pending, bad, frozenset(['mirror devices are', 'device descriptions are']))
      return [(s, C1), (st, C0)]
    if ev.cls == 'GrabbedDevices' and ev.name == 'grabbed_device_descs':
      return [(st, mk('LV', mk('OBJ', 'descs')))]
    if ev.cls == 'VirtualDevices' and ev.name == 'update_forward_devices':
      ok = ev.args[0].k == 'LV' and ev.args[0].a[0] is mk('OBJ', 'descs')
      s = st.copy()
      s.mon = (pending, 'updating mirror devices', stale)
      st.mon = (pending, bad, stale - {'mirror devices are'} if ok else stale)
      return [(st, C1), (s, C0)]
    if server(ev) and ev.name == 'set_device_descs':
      v = I.rv(st, ev.args[0])
      ok = ev.args[0].k == 'LV' and ev.args[0].a[0] is mk('OBJ', 'descs') or v is I.load_whole(st, mk('OBJ', 'descs'))
      st.mon = (pending, bad, stale - {'device descriptions are'} if ok else stale)
      return [(st, VOID)]
    if server(ev) and ev.name == 'accept_client_connection':
      st.mon = (False, None, stale)
      v = fresh('socket')
      I.settype(v, ev.c.get('ret'))
      return [(st, v)]
    if server(ev) and ev.name in ('reset_configuration', 'disconnect', 'listen_for_client_connections', 'has_configuration', 'has_mouse_mappings', 'timeout',
        'flush_scheduled_at', 'timeout_start_at', 'cancel_timeout', 'should_exit', 'version_mismatch'):
      v = fresh(ev.name)
      I.settype(v, ev.c.get('ret'))
      return [(st, v)]
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'translate_input', 'read_input_event', 'forward_event', 'to_key_event', 'update_devices',
    'update_forward_devices', 'set_device_descs', 'accept_client_connection', 'flush_send_buffer', 'grab'), on_call=on_call,
    inline=lambda I, f: False if P.rel(f).startswith('src/server/ServerState') or f.get('cls') in ('GrabbedDevices', 'VirtualDevices') else None))
  I.run(main, (False, None, frozenset()))
  ctx.used(I)
  for k, least in (('read', 1), ('translate', 2), ('forward', 1), ('update', 2)):
    ctx.need('calls to %s' % k, seen[k], least)


# ------------------------------------------------------------------ reading

def member(P, cls, pred, what):
  fs = [f for f in P.records[cls]['fields'] if pred(f['t'] or {})]
  if len(fs) != 1:
    raise AnalysisError('%s not identified' % what)
  return cls + '::' + fs[0]['n']


def is_vector(t, of=None):
  return bare(t.get('rec') or '') == 'std::vector' and (of is None or of in [bare(x) for x in t.get('ta') or []])


def impl_of(P, cls):
  """(field with the implementation, implementing class)"""
  for f in P.records[cls]['fields']:
    t = f['t'] or {}
    if bare(t.get('rec') or '') == 'std::unique_ptr':
      c = (t.get('ta') or [None])[0]
      if c in P.records:
        return cls + '::' + f['n'], c
  raise AnalysisError('implementation of %s not found' % cls)


def device_list(P):
  field, impl = impl_of(P, 'GrabbedDevices')
  for f in P.records[impl]['fields']:
    t = f['t'] or {}
    if is_vector(t):
      d = (t.get('ta') or [''])[0]
      if d in P.records and [x for x in P.records[d]['fields'] if x['n'] == 'fd']:
        return field, impl, impl + '::' + f['n'], d
  raise AnalysisError('list of grabbed devices not found')


def devices(P, dev):
  """descriptions of three symbolic grabbed devices"""
  out = []
  for i in range(DEVICES):
    out.append(mk('rec', mk('PARAM', 'device', 'grabbed', i), ((dev + '::fd', mk('PARAM', 'fd', 'of device', i)),)))
  return out


def errno_of(st, code):
  s = st.copy()
  s.env[ERRNO] = C(code)
  return s


def reading(ctx, P):
  field, impl, lst, dev = device_list(P)
  fn = [f for f in P.funcs.values() if f.get('cls') == impl and f['n'] == 'read_input_event' and f.get('body')]
  if len(fn) != 1:
    raise AnalysisError('reading of input events not found')
  fn = fn[0]
  obj = mk('OBJ', impl)
  fds = [mk('PARAM', 'fd', 'of device', i) for i in range(DEVICES)]
  got = {'events': set(), 'end': 0}
  sym = lambda n: mk('PARAM', 'raw', n, 0)
  raw = ('type', 'code', 'value')

  # mon: (devices read, failed, interruptions)
  def on_call(I, st, ev):
    if ev.name == '__errno_location':
      return [(st, mk('addr', ERRNO))]
    if ev.cls or ev.targets:
      return
    if ev.name in ('select', 'poll'):
      done, bad, intr = st.mon
      s = errno_of(st, EIO)
      s.mon = (done, True, intr)
      out = [(st.copy(), C1), (st.copy(), C0), (s, C(-1))]
      if 'select' not in intr:
        s = errno_of(st, EINTR)
        s.mon = (done, bad, intr + ('select',))
        out.append((s, C(-1)))
      return out
    if ev.name == 'read':
      fd, ptr, n = (I.rv(st, a) for a in ev.args)
      if fd not in fds:
        raise AnalysisError('read from an unknown descriptor: %s' % at(I, ev.node))
      l = deref(ptr)
      if l.k == 'E' and l.a[1] is C0:
        l = l.a[0]
      done, bad, intr = st.mon
      if len(done) > 1:
        return []
      ctx.ob('read', 'one event is read at a time', not done, at(I, ev.node), 'an event is read although the last one was not returned')
      out = []
      s = st.copy()
      for x in raw:
        I.write(s, F(l, 'input_event::' + x), sym(x), ev.node)
      s.mon = (done + (fds.index(fd),), bad, intr)
      out.append((s, n))
      for code in (EINTR, EIO):
        s = errno_of(st, code)
        if code == EINTR and 'read' in intr:
          continue
        s.mon = (done, bad or code == EIO, intr + ('read',))
        out.append((s, C(-1)))
      return out

  def on_leave(I, st, f, v, node):
    if f['id'] != fn['id']:
      return
    done, bad, intr = st.mon
    got['end'] += 1
    ok, e = I.truth(st, I.fld(v, FIRST)), I.fld(v, SECOND)
    has = I.truth(st, I.fld(e, HAS))
    if ok is None or has is None:
      raise AnalysisError('undecided result of reading %s' % v)
    if bad:
      ctx.ob('read', 'failures are returned', ok is False, P.where(fn), 'a failure of reading is not returned')
      return
    ctx.ob('read', 'failure only when reading failed', ok is True, P.where(fn), 'a failure is returned although reading did not fail')
    if not done:
      ctx.ob('read', 'events are only returned when read', has is False, P.where(fn), 'an event is returned which was not read')
      return
    ctx.ob('read', 'every read event is returned', has is True, P.where(fn), 'a read event is not returned')
    if has:
      r = I.fld(e, VAL)
      got['events'].add(done[0])
      g = {n: of_event(I, st, r, n) for n in EVENT}
      same = lambda a, b: I.truth(st, eq(a, b)) is True
      ctx.ob('read', 'index of its device', same(g['device_index'], C(done[0])), P.where(fn), 'an event is returned with the index of another device')
      ctx.ob('read', 'type of the event', same(g['type'], sym('type')), P.where(fn), 'an event is returned with another type')
      if same(g['code'], sym('code')):
        axis = same(sym('type'), C(EV_ABS)) and (same(sym('code'), C(ABS_VOLUME)) or same(sym('code'), C(ABS_MISC)))
        ctx.ob('read', 'value of the event', axis or same(g['value'], sym('value')), P.where(fn), 'an event is returned with another value')
      else:
        pairs = ((REL_WHEEL, REL_WHEEL_HI_RES), (REL_HWHEEL, REL_HWHEEL_HI_RES))
        wheel = same(sym('type'), C(EV_REL)) and any(same(sym('code'), C(a)) and same(g['code'], C(b)) for a, b in pairs)
        ctx.ob('read', 'code of the event', wheel, P.where(fn), 'an event is returned with another code')
        ctx.ob('read', 'wheel steps are converted', not wheel or same(g['value'], mulc(sym('value'), 120)), P.where(fn),
          'a wheel step is not converted to its 120 high-resolution steps')
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'read', 'select', 'poll'), on_call=on_call, on_leave=on_leave, cap=400, retcap=400, unroll=5,
    inline=lambda I, f: True if f.get('cls') == impl else None))

  def setup(I, st, args):
    st.env[F(obj, lst)] = mk('list', *devices(P, dev))
    for fd in fds:
      I.tr[fd] = ((0, 1023),)
    I.tr[sym('type')] = ((0, 31),)
    I.tr[sym('code')] = ((0, 767),)
    I.tr[sym('value')] = ((-30000, 30000),)
  I.run(fn, ((), False, ()), obj=obj, setup=setup)
  ctx.used(I)
  ctx.need('ends of reading', got['end'], 6)
  ctx.need('devices of which events were read', len(got['events']), DEVICES)


def mulc(t, k):
  r = C0
  for _ in range(k):
    r = add(r, t)
  return r


# ------------------------------------------------------------------ converting

def converting(ctx, P):
  fn = P.find1('to_key_event')
  kv = lambda n: C(enum_val(P, 'Key', n))
  down, up = C(enum_val(P, 'KeyState', 'Down')), C(enum_val(P, 'KeyState', 'Up'))
  e = symbolic_event()
  part = {n: of_event(None, None, e, n) if False else mk('PARAM', 'event', n, 0) for n in EVENT}
  ends = [0]

  def on_leave(I, st, f, v, node):
    if f['id'] != fn['id']:
      return
    ends[0] += 1
    is_ = lambda a, b: I.truth(st, eq(a, b)) is True
    typ, code, value = part['type'], part['code'], part['value']
    has = I.truth(st, I.fld(v, HAS))
    if has is None:
      raise AnalysisError('undecided conversion')
    wheels = {REL_WHEEL_HI_RES: ('WheelDown', 'WheelUp'), REL_HWHEEL_HI_RES: ('WheelLeft', 'WheelRight')}
    if not has:
      may_key = I.truth(st, eq(typ, C(EV_KEY))) is not False
      ctx.ob('convert', 'key events are converted', not may_key, P.where(fn), 'a key event is not translated')
      may_wheel = I.truth(st, eq(typ, C(EV_REL))) is not False and any(I.truth(st, eq(code, C(c))) is not False for c in wheels)
      ctx.ob('convert', 'wheel events are converted', not may_wheel, P.where(fn), 'a wheel event is not translated')
      return
    ev = I.fld(v, VAL)
    key, state = I.fld(ev, 'KeyEvent::key'), I.fld(ev, 'KeyEvent::state')
    if is_(typ, C(EV_KEY)):
      ctx.ob('convert', 'key of the event', is_(key, code), P.where(fn), 'a key event is translated as one of another key')
      pressed = I.truth(st, eq(value, C0))
      ok = is_(state, up) if pressed is True else is_(state, down) if pressed is False else False
      ctx.ob('convert', 'state of the key', ok, P.where(fn), 'a press is translated as a release or the other way round')
      return
    low = is_(typ, C(EV_REL)) and (is_(code, C(REL_WHEEL)) or is_(code, C(REL_HWHEEL)))
    if is_(key, kv('none')):
      ctx.ob('convert', 'only low-resolution duplicates are dropped', low, P.where(fn), 'an event is dropped which is not a duplicate of another one')
      return
    c = [c for c in wheels if is_(code, C(c))]
    ctx.ob('convert', 'only keys and wheels are translated', is_(typ, C(EV_REL)) and len(c) == 1, P.where(fn), 'an event is translated which is not one of a key or wheel')
    if c:
      neg = I.truth(st, cmp('<', value, C0))
      ok = neg is not None and is_(key, kv(wheels[c[0]][0 if neg else 1]))
      ctx.ob('convert', 'direction of wheel', ok, P.where(fn), 'a wheel event is translated as one of another direction')
  I = Interp(P, Spec(on_leave=on_leave, cap=200, retcap=200, inline=lambda I, f: True if f['id'] == fn['id'] else None))

  def setup(I, st, args):
    I.tr[part['type']] = ((0, 31),)
    I.tr[part['code']] = ((0, 767),)
    I.tr[part['value']] = ((-30000, 30000),)
    return [e]
  I.run(fn, 0, setup=setup)
  ctx.used(I)
  ctx.need('outcomes of converting', ends[0], 5)


# ------------------------------------------------------------------ writing

def written(I, st, ev):
  """(descriptor, type, code, value) of a written event"""
  fd, ptr, n = (I.rv(st, a) for a in ev.args)
  l = deref(ptr)
  if l.k == 'E' and l.a[1] is C0:
    l = l.a[0]
  return (fd,) + tuple(I.load(st, F(l, 'input_event::' + x)) for x in ('type', 'code', 'value')) + (n,)


def virtual(P):
  field, impl = impl_of(P, 'VirtualDevices')
  vec = [f for f in P.records[impl]['fields'] if is_vector(f['t'] or {}) and '*' in ((f['t'].get('ta') or [''])[0])]
  if len(vec) != 1:
    raise AnalysisError('list of mirror devices not found')
  dev = vec[0]['t']['ta'][0].replace('*', '').strip()
  if dev not in P.records:
    dev = [r for r in P.records if r.endswith('::' + dev) or r == dev][0]
  fd = [f['n'] for f in P.records[dev]['fields'] if (f['t'] or {}).get('bits') == 32]
  if len(fd) != 1:
    raise AnalysisError('descriptor of mirror device not found')
  kb = [f['n'] for f in P.records[impl]['fields'] if bare((f['t'] or {}).get('rec') or '') == 'std::unique_ptr']
  if len(kb) != 1:
    raise AnalysisError('virtual keyboard not found')
  return field, impl, impl + '::' + vec[0]['n'], dev, dev + '::' + fd[0], impl + '::' + kb[0]


def write_hook(events):
  def on_call(I, st, ev):
    if ev.name == '__errno_location':
      return [(st, mk('addr', ERRNO))]
    if ev.name == 'write' and not ev.cls and not ev.targets:
      w = written(I, st, ev)
      done, bad = st.mon
      out = []
      s = st.copy()
      s.mon = (done + (w,), bad)
      out.append((s, w[-1]))
      for code in (EINTR, EIO):
        if code == EINTR and st.env.get(mk('OBJ', 'interrupted')) is not None:
          continue
        s = errno_of(st, code)
        s.env[mk('OBJ', 'interrupted')] = C1
        s.mon = (done, bad or code == EIO)
        out.append((s, C(-1)))
      return out
  return on_call


def root(P, impl, name):
  fn = [f for f in P.funcs.values() if f.get('cls') == impl and f['n'] == name and f.get('body')]
  if len(fn) != 1:
    raise AnalysisError('%s::%s not found' % (impl, name))
  return fn[0]


def forwarding(ctx, P):
  field, impl, lst, dev, fdf, kb = virtual(P)
  fn = root(P, impl, 'forward_event')
  obj = mk('OBJ', impl)
  fds = [mk('PARAM', 'uinput', 'of mirror', i) for i in range(DEVICES)]
  args = [mk('PARAM', 'event', n, 0) for n in EVENT[1:]]
  n = 0
  for index in range(DEVICES):
    ends = [0]

    def on_leave(I, st, f, v, node):
      if f['id'] != fn['id']:
        return
      ends[0] += 1
      done, bad = st.mon
      t = I.truth(st, v)
      ctx.ob('forward', 'failures are returned', t is (not bad), P.where(fn), 'the result of forwarding is wrong')
      if not bad:
        ctx.ob('forward', 'one event is written', len(done) == 1, P.where(fn), 'an event is not forwarded exactly once')
        if len(done) == 1:
          w = done[0]
          same = lambda a, b: I.truth(st, eq(a, b)) is True
          ctx.ob('forward', 'written to the mirror of its device', w[0] is fds[index], P.where(fn), 'an event is forwarded to another device')
          ctx.ob('forward', 'written unchanged', all(same(a, b) for a, b in zip(w[1:4], args)), P.where(fn), 'an event is forwarded with another type, code or value')
    I = Interp(P, Spec(interest=lambda n: node_calls(n, 'write'), on_call=write_hook(None), on_leave=on_leave, cap=200, retcap=200,
      inline=lambda I, f: True if f.get('cls') in (impl, dev) else None))

    def setup(I, st, a):
      o = [mk('OBJ', 'mirror%d' % i) for i in range(DEVICES)]
      for i in range(DEVICES):
        st.env[F(o[i], fdf)] = fds[i]
        I.tr[fds[i]] = ((0, 1023),)
      st.env[F(obj, lst)] = mk('list', *[mk('addr', x) for x in o])
      for x, hi in zip(args, (31, 767, 30000)):
        I.tr[x] = ((-hi if hi > 1000 else 0, hi),)
      return [C(index)] + args
    I.run(fn, ((), False), obj=obj, setup=setup)
    ctx.used(I)
    n += ends[0]
  ctx.need('outcomes of forwarding', n, 6)


def sending(ctx, P):
  field, impl, lst, dev, fdf, kb = virtual(P)
  fn = root(P, impl, 'send_key_event')
  obj = mk('OBJ', impl)
  mouse = [impl + '::' + f['n'] for f in P.records[impl]['fields'] if (f['t'] or {}).get('ptr')]
  down_keys = [dev + '::' + f['n'] for f in P.records[dev]['fields'] if is_vector(f['t'] or {})]
  if len(down_keys) != 1:
    raise AnalysisError('held keys of virtual device not found')
  kv = lambda n: enum_val(P, 'Key', n)
  down, up = enum_val(P, 'KeyState', 'Down'), enum_val(P, 'KeyState', 'Up')
  wheels = {'WheelUp': (REL_WHEEL_HI_RES, 1), 'WheelDown': (REL_WHEEL_HI_RES, -1), 'WheelRight': (REL_HWHEEL_HI_RES, 1), 'WheelLeft': (REL_HWHEEL_HI_RES, -1)}
  fd = mk('PARAM', 'uinput', 'of keyboard', 0)
  total = 0
  value = mk('PARAM', 'wheel', 'value', 0)
  cases = [('A', s, held) for s in (down, up) for held in ((), ('A',), ('B',), ('B', 'A'))] + [(w, up, ()) for w in wheels]
  for name, state, held in cases:
    ends = [0]

    def on_leave(I, st, f, v, node):
      if f['id'] != fn['id']:
        return
      ends[0] += 1
      done, bad = st.mon
      t = I.truth(st, v)
      ctx.ob('send', 'failures are returned', t is (not bad), P.where(fn), 'the result of sending is wrong')
      same = lambda a, b: I.truth(st, eq(a, b)) is True
      if bad:
        return
      ctx.ob('send', 'written to one device', len({w[0] for w in done}) == 1, P.where(fn), 'parts of an event are sent to different devices')
      ctx.ob('send', 'followed by synchronisation', bool(done) and same(done[-1][1], C(EV_SYN)) and not any(same(w[1], C(EV_SYN)) for w in done[:-1]), P.where(fn),
        'an event is not followed by one synchronisation event')
      rest = done[:-1]
      if name in wheels:
        c, sign = wheels[name]
        ok = bool(rest) and same(rest[0][1], C(EV_REL)) and same(rest[0][2], C(c))
        ctx.ob('send', 'wheel of the event', ok, P.where(fn), 'a wheel event is not sent as one of its wheel')
        if ok:
          ctx.ob('send', 'direction of the wheel', I.truth(st, cmp('<', rest[0][3], C0)) is (sign < 0), P.where(fn), 'a wheel event is sent with the wrong direction')
        for w in rest[1:]:
          ctx.ob('send', 'low-resolution wheel', same(w[1], C(EV_REL)) and same(w[2], C(REL_WHEEL if c == REL_WHEEL_HI_RES else REL_HWHEEL)), P.where(fn),
            'the low-resolution event is not one of the same wheel')
      else:
        want = 0 if state == up else 2 if 'A' in held else 1
        ok = len(rest) == 1 and same(rest[0][1], C(EV_KEY)) and same(rest[0][2], C(kv('A')))
        ctx.ob('send', 'key of the event', ok, P.where(fn), 'a key event is not sent once with the code of its key')
        if ok:
          ctx.ob('send', 'value of the key', same(rest[0][3], C(want)), P.where(fn), 'a key event is sent with the wrong value (press, repeat, release)')
        l = I.load_whole(st, F(mk('OBJ', 'keyboard'), down_keys[0]))
        have = {x.a[0] for x in l.a if isc(x)} if l.k == 'list' else set() if l is ZERO else None
        if have is None:
          raise AnalysisError('held keys not understood: %s' % l)
        exp = {kv(x) for x in held} - {kv('A')} | ({kv('A')} if state == down else set())
        ctx.ob('send', 'held keys', have == exp, P.where(fn), 'the held keys of the virtual device are recorded wrongly')
    I = Interp(P, Spec(interest=lambda n: node_calls(n, 'write'), on_call=write_hook(None), on_leave=on_leave, cap=300, retcap=300,
      inline=lambda I, f: True if f.get('cls') in (impl, dev) else None))

    def setup(I, st, a):
      o = mk('OBJ', 'keyboard')
      st.env[F(o, fdf)] = fd
      I.tr[fd] = ((0, 1023),)
      st.env[F(o, down_keys[0])] = mk('list', *[C(kv(x)) for x in held])
      st.env[F(obj, kb)] = mk('addr', o)
      for m in mouse:
        st.env[F(obj, m)] = C0
      I.tr[value] = ((0, 4095),)
      return [mk('rec', ZERO, (('KeyEvent::key', C(kv(name))), ('KeyEvent::state', C(state)), ('KeyEvent::value', value)))]
    I.run(fn, ((), False), obj=obj, setup=setup)
    ctx.used(I)
    total += ends[0]
  ctx.need('outcomes of sending', total, 20)


def subterms(t):
  todo = [t]
  while todo:
    t = todo.pop()
    yield t
    todo += [x for x in t.a if isinstance(x, type(t))]
    for x in t.a:
      if isinstance(x, tuple):
        todo += [y for y in x if isinstance(y, type(t))] + [z for y in x if isinstance(y, tuple) for z in y if isinstance(z, type(t))]


def descriptions(ctx, P):
  """The search for devices is abstracted: it leaves some list of devices, each marked as gone or not."""
  field, impl, lst, dev = device_list(P)
  fn = root(P, impl, 'update_devices')
  obj = mk('OBJ', impl)
  descs = [impl + '::' + f['n'] for f in P.records[impl]['fields'] if is_vector(f['t'] or {}, 'DeviceDesc')]
  flags = [dev + '::' + f['n'] for f in P.records[dev]['fields'] if (f['t'] or {}).get('bool')]
  changed = [impl + '::' + f['n'] for f in P.records[impl]['fields'] if (f['t'] or {}).get('bool')]
  if len(descs) != 1:
    raise AnalysisError('descriptions of grabbed devices not found')
  L, D = F(obj, lst), F(obj, descs[0])
  ids = [mk('PARAM', 'event', 'id of device', i) for i in range(DEVICES)]
  got = {'ends': 0, 'search': 0, 'described': 0}

  # mon: (searched, events since descriptions were cleared, removed devices)
  def on_call(I, st, ev):
    searched, events, gone = st.mon
    if ev.name == 'directory_iterator' and not searched:
      got['search'] += 1
      st.mon = (True, events, gone)
      for i in range(DEVICES):
        for f in flags:
          I.write(st, F(E(L, C(i)), f), mk('PARAM', f, 'of device', i), ev.node)
      return [(st, fresh('directory'))]
    if ev.name in ('path', 'is_character_file') and ev.cls == 'std::filesystem::directory_entry':
      return []
    if ev.name == 'erase' and ev.obj is L:
      st.mon = (searched, events, gone + (str(I.rv(st, ev.args[0])),))
    if ev.obj is D and ev.name in ('push_back', 'emplace_back'):
      st.mon = (searched, events + ('desc',), gone)
    elif ev.name in ('make_shared', 'make_unique') and ev.args:
      v = I.rv(st, ev.args[0])
      if v.k == 'LV':
        v = I.load_whole(st, v.a[0])
      i = [i for i in range(DEVICES) if I.fld(v, ext[0] + '::event_id') is ids[i]]
      if len(i) != 1:
        raise AnalysisError('described device not understood: %s' % at(I, ev.node))
      st.mon = (searched, events + (i[0],), gone)
  ext = [r for r in P.records if r.split('::')[-1] == 'DeviceDescLinux']
  if len(ext) != 1:
    raise AnalysisError('extended descriptions not found')

  def on_write(I, st, loc, v, node):
    if loc is D and (v is ZERO or v.k == 'list' and not v.a):
      st.mon = (st.mon[0], (), st.mon[2])

  def on_leave(I, st, f, v, node):
    if f['id'] != fn['id'] or not st.mon[0]:
      return
    got['ends'] += 1
    l = I.load_whole(st, L)
    if l is ZERO:
      l = mk('list')
    if l.k != 'list':
      raise AnalysisError('grabbed devices not understood: %s' % l)
    have = [ids.index(I.fld(x, dev + '::event_id')) for x in l.a]
    events = st.mon[1]
    n = events.count('desc')
    ctx.ob('describe', 'one description per grabbed device', n == len(have), P.where(fn), 'the descriptions are not one per grabbed device')
    ok = False
    for after in (True, False):
      k, match = 0, True
      for e in events:
        if e == 'desc':
          k += 1
        else:
          i = k - 1 if after else k
          match = match and 0 <= i < len(have) and have[i] == e
          got['described'] += 1
      ok = ok or match
    ctx.ob('describe', 'descriptions in the order of the devices', ok, P.where(fn), 'the n-th description is not the one of the n-th grabbed device')
  I = Interp(P, Spec(on_call=on_call, on_write=on_write, on_leave=on_leave, cap=3, retcap=3, unroll=DEVICES + 2,
    inline=lambda I, f: True if f.get('cls') == impl else False if not f.get('cls') else None,
    interest=lambda n: any(node_calls(n, x) for x in ('push_back', 'emplace_back', 'erase', 'make_shared'))))

  def setup(I, st, a):
    for f in changed:
      st.env[F(obj, f)] = C1
    st.env[L] = mk('list', *[mk('rec', mk('PARAM', 'device', 'grabbed', i), ((dev + '::event_id', ids[i]),)) for i in range(DEVICES)])
    st.env[D] = mk('list', mk('PARAM', 'description', 'stale', 0))
  I.run(fn, (False, ('desc',), ()), obj=obj, setup=setup)
  ctx.used(I)
  ctx.need('searches for devices', got['search'], 1)
  ctx.need('outcomes of updating devices', got['ends'], 8)
  ctx.need('described devices', got['described'], 6)


MAPS = ('std::map', 'std::unordered_map')
ITERATORS = ('std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_Node_iterator', 'std::__detail::_Node_iterator')


def mirrors(ctx, P):
  field, impl, lst, dev, fdf, kb = virtual(P)
  fn = root(P, impl, 'update_forward_devices')
  obj = mk('OBJ', impl)
  ext = [r for r in P.records if r.split('::')[-1] == 'DeviceDescLinux']
  if len(ext) != 1:
    raise AnalysisError('extended descriptions not found')
  ids = [mk('PARAM', 'event', 'id of device', i) for i in range(DEVICES)]
  pairs = [mk('OBJ', 'mirror entry', i) for i in range(DEVICES)]
  keyboard = mk('addr', mk('OBJ', 'virtual keyboard'))
  END, NODE = mk('OBJ', 'end of mirrors'), 'mirror node'
  total = 0
  for has in ((1, 1, 1), (0, 1, 0), (1, 0, 1), (0, 0, 0)):
    def which(I, st, *values):
      found = {ids.index(x) for v in values for x in subterms(v) if x in ids} | \
        {x.a[1] for v in values for x in subterms(v) if x.k == 'PARAM' and x.a[0] == NODE}
      if not found and all(isc(v) for v in values):
        ctx.ob('mirror', 'mirror of the same device', False, P.where(fn), 'a mirror device is looked up by something else than the number of its device')
        return 0
      if len(found) != 1:
        raise AnalysisError('key of mirror device not understood: %s' % (values,))
      return found.pop()

    def full(I, st, a):
      v = I.rv(st, a)
      if v.k == 'tie':
        return mk('list', *[I.load(st, x) if x.k != 'c' else x for x in v.a[0]]) if isinstance(v.a[0], tuple) else v
      return v

    def on_call(I, st, ev):
      if ev.cls in MAPS:
        if ev.name in ('clear', 'swap', 'size', 'empty', 'begin'):
          return
        vals = [full(I, st, a) for a in ev.args]
        if ev.name in ('end', 'cend'):
          return [(st, END)]
        if ev.name in ('extract', 'find'):
          i = which(I, st, *vals)
          s = st.copy()
          return [(st, mk('PARAM', NODE, i, 0)), (s, C0 if ev.name == 'extract' else END)]
        if ev.name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
          return [(st, mk('PARAM', NODE, which(I, st, *vals), 0))]
        if ev.name in ('operator[]', 'at'):
          return [(st, mk('LV', F(pairs[which(I, st, *vals)], SECOND)))]
        return
      if ev.name == 'operator bool' and (ev.cls or '').startswith('std::_Node_handle'):
        v = I.load(st, ev.obj)
        return [(st, C0 if v is C0 else C1)] if v is C0 or v.k == 'PARAM' else None
      if ev.name == 'empty' and (ev.cls or '').startswith('std::_Node_handle'):
        v = I.load(st, ev.obj)
        return [(st, C1 if v is C0 else C0)] if v is C0 or v.k == 'PARAM' else None
      if ev.name in ('operator->', 'operator*') and ev.cls in ITERATORS:
        i = which(I, st, I.load(st, ev.obj))
        return [(st, mk('addr', pairs[i]) if ev.name == 'operator->' else mk('LV', pairs[i]))]
      if ev.name == 'mapped' and (ev.cls or '').startswith('std::_Node_handle'):
        return [(st, mk('LV', F(pairs[which(I, st, I.load(st, ev.obj))], SECOND)))]
      if ev.name in ('operator==', 'operator!=') and len(ev.args) == 2:
        a, b = (I.rv(st, x) for x in ev.args)
        if END in (a, b) and all(x is END or x.k == 'PARAM' for x in (a, b)):
          return [(st, C1 if (a is b) == (ev.name == 'operator==') else C0)]

    ends = [0]

    def on_leave(I, st, f, v, node):
      if f['id'] != fn['id']:
        return
      t = I.truth(st, v)
      if t is None:
        raise AnalysisError('undecided result of updating the mirror devices')
      ends[0] += 1
      if not t:
        ctx.ob('mirror', 'failure only when creating a mirror failed', any(has), at(I, node) if node else P.where(fn), 'a failure is returned although no mirror had to be created')
        return
      l = I.load_whole(st, F(obj, lst))
      if l is ZERO:
        l = mk('list')
      if l.k != 'list':
        raise AnalysisError('mirror devices not understood: %s' % l)
      ctx.ob('mirror', 'one mirror per description', len(l.a) == DEVICES, P.where(fn), 'the mirror devices are not one per description')
      for i, x in enumerate(l.a[:DEVICES]):
        if has[i]:
          ctx.ob('mirror', 'mirror of the same device', x is mk('addr', F(pairs[i], SECOND)), P.where(fn), 'a mirror device does not belong to the device with the same index')
        else:
          ctx.ob('mirror', 'keyboards are mirrored by the virtual keyboard', x is keyboard, P.where(fn), 'events of a device without own mirror are not forwarded with the virtual keyboard')
    I = Interp(P, Spec(on_call=on_call, on_leave=on_leave, cap=300, retcap=300, unroll=DEVICES + 2, inline=lambda I, f: True if f.get('cls') == impl else None,
      interest=lambda n: any(node_calls(n, x) for x in ('extract', 'find', 'insert', 'emplace', 'operator[]', 'emplace_back', 'push_back'))))

    def setup(I, st, a):
      descs = []
      st.env[F(obj, kb)] = keyboard
      st.env[F(obj, lst)] = mk('list', mk('PARAM', 'mirror', 'stale', 0))
      for i in range(DEVICES):
        o = mk('OBJ', 'extended description', i)
        I.tr[ids[i]] = ((0, 999),)
        st.env[F(o, ext[0] + '::event_id')] = ids[i]
        descs.append(mk('rec', mk('PARAM', 'device', 'described', i), (('DeviceDesc::ext', mk('addr', o) if has[i] else C0),)))
      return [mk('list', *descs)]
    I.run(fn, 0, obj=obj, setup=setup)
    ctx.used(I)
    total += ends[0]
  ctx.need('outcomes of updating mirrors', total, 6)

"""C09: every key event written to the virtual device is complete."""
from .common import *

TECHNIQUE = 'path-sensitive dataflow over the clang AST: abstract contents of every write to the virtual device per event kind'
NOTE = 'All paths of sending one event from any device state, with every outcome of each write.'

EV_SYN, EV_KEY, EV_REL = 0, 1, 2
EVSIZE = 24


def written_events(I, st, ev):
  """input_event structs passed to a write/writev call -> [(type, code, value)]"""
  size = I.rv(st, ev.args[2])
  if not isc(size) or size.a[0] % EVSIZE:
    raise AnalysisError('write of unknown size to a device at ' + at(I, ev.node))
  n = size.a[0] // EVSIZE
  p = I.rv(st, ev.args[1])
  l = deref(p)
  out = []
  for i in range(n):
    if n == 1 and l.k != 'E':
      b = l
    elif l.k == 'E':
      b = E(l.a[0], add(l.a[1], C(i)))
    else:
      b = E(l, C(i))
    out.append(tuple(I.load(st, F(b, 'input_event::' + f)) for f in ('type', 'code', 'value')))
  return out


def device_write(record):
  def hook(I, st, ev):
    if ev.q in ('write', '::write') and len(ev.args) == 3:
      evs = written_events(I, st, ev)
      ok, bad = st.copy(), st
      size = I.rv(st, ev.args[2]).a[0]
      ok.mon = record(I, ok, ok.mon, ev, evs, True)
      bad.mon = record(I, bad, bad.mon, ev, evs, False)
      r = fresh('written')
      I.tr[r] = ((0, size - 1),)
      return [(ok, C(size)), (bad.copy(), C(-1)), (bad, r)]
  return hook


def unzero(v):
  return C0 if v.k == 'zero' else v


def check(ctx):
  P = load('keymapperd')
  ctx.rule('complete', 'on every path of sending a key event that reports success, all device writes succeeded, the first one carries the '
    'key\'s own code with the value of the event\'s state, and the last one is a synchronisation report on the same device')
  ctx.rule('failure', 'a path on which a device write failed reports failure')
  ctx.rule('repeat', 'abstract run of press/release sequences on a newly created keyboard: the written values are press, auto-repeat, release '
    'as the device\'s state requires')
  send = method(P, 'VirtualDevices::send_key_event')
  create = method(P, 'VirtualDevices::create_keyboard_device')
  kv = lambda n: enum_val(P, 'Key', n)
  down, up = C(enum_val(P, 'KeyState', 'Down')), C(enum_val(P, 'KeyState', 'Up'))
  classes = [('keyboard key', ((1, 0xFF),), False), ('mouse button', ((kv('ButtonLeft'), kv('ButtonTask') if 'ButtonTask' in
    [x['n'] for x in P.enums['Key']['e']] else kv('ButtonForward')),), False)]
  for w in ('WheelUp', 'WheelDown', 'WheelLeft', 'WheelRight'):
    classes.append((w, ((kv(w), kv(w)),), True))
  wr = {'n': 0}

  def record(I, st, mon, ev, evs, ok):
    wr['n'] += 1
    fd = I.rv(st, ev.args[0])
    new = tuple((fd, t, c, v) for t, c, v in evs)
    if len(mon) >= len(new) and all(m[:4] == x and not m[4] for m, x in zip(mon[len(mon) - len(new):], new)):
      mon = mon[:len(mon) - len(new)]      # retried after an interrupted call
    return mon + tuple(x + (ok,) for x in new)
  hook = device_write(record)
  interest = lambda n: node_calls(n, 'write') or n['k'] == 'Mem' and not callee(n) and 'VirtualDevice::' in (n.get('q') or '')
  for name, rng, wheel in classes:
    for sname, sv in (('press', down), ('release', up)):
      I = Interp(P, Spec(interest=interest, on_call=hook, cap=64, retcap=32))
      key = mk('PARAM', 'event', 'key', name)
      if rng[0][0] == rng[0][1]:
        key = C(rng[0][0])
      else:
        I.tr[key] = rng
      val = mk('PARAM', 'event', 'value', 0)
      I.tr[val] = ((0, 4095),)
      rec = mk('rec', ZERO, (('KeyEvent::key', key), ('KeyEvent::state', sv), ('KeyEvent::value', val)))

      def setup(I, s, args):
        return [rec]
      r = I.run(send, (), obj=mk('OBJ', 'VirtualDevices'), setup=setup)
      ctx.used(I)
      okpaths = 0
      for st, v in r:
        w = st.mon
        failed = any(not x[4] for x in w)
        t = I.truth(st, v)
        case = '%s of a %s' % (sname, name)
        if failed:
          ctx.ob('failure', case, t is False, P.where(send), 'a device write failed but success is reported')
          continue
        if t is False and not w:
          continue    # no device
        okpaths += 1
        ctx.ob('complete', case + ': written', bool(w), P.where(send), 'a path reports success without writing the event')
        if not w:
          continue
        last = w[-1]
        syn = all(unzero(x) is C0 for x in last[1:4]) and last[0] is w[0][0]
        ctx.ob('complete', case + ': synchronised', syn and len(w) >= 2, P.where(send), 'the last write is not a synchronisation report on the same device')
        if wheel:
          ok = all(x[1] is C(EV_REL) for x in w[:-1])
          ctx.ob('complete', case + ': relative events', ok, P.where(send), 'something else than relative events is written for a wheel key')
        else:
          ev = [x for x in w if x[1] is C(EV_KEY)]
          other = [x for x in w if x[1] is not C(EV_KEY) and unzero(x[1]) is not C0]
          ok = len(ev) == 1 and not other and w[0] is ev[0] and same_value(I, st, ev[0][2], key)
          ctx.ob('complete', case + ': key code', ok, P.where(send), 'the event written does not carry the code of the key sent')
          if ok:
            iv = I.interval(st, unzero(ev[0][3]))
            want = ((1, 2),) if sname == 'press' else ((0, 0),)
            ctx.ob('complete', case + ': value', isubset(iv, want), P.where(send),
              'the value written for a %s is %s' % (sname, iv))
      ctx.need('successful paths of ' + name + ' ' + sname, okpaths, 1)
  ctx.need('device writes', wr['n'], 2)
  sequences(ctx, P, send, create, kv, down, up)


def same_value(I, st, a, b):
  if a is b:
    return True
  while a.k == 'cast' and isubset(I.interval(st, a.a[2]), I.crange(a.a[0], a.a[1])):
    a = a.a[2]
  return a is b or I.truth(st, eq(a, b)) is True


def sequences(ctx, P, send, create, kv, down, up):
  def record(I, st, mon, ev, evs, ok):
    return mon + tuple((c, v) for t, c, v in evs if t is C(EV_KEY))

  base = device_write(record)

  def on_call(I, st, ev):
    if ev.name in ('open', 'openat'):
      return [(st, C(7))]
    if ev.name == 'ioctl':
      return [(st, C0)]
    if ev.name == 'write' and len(ev.args) == 3:
      return base(I, st, ev)[:1]     # all writes succeed
  seqs = [
    ('press press release press', [('A', 1, 1), ('A', 1, 2), ('A', 0, 0), ('A', 1, 1)]),
    ('two keys', [('A', 1, 1), ('B', 1, 1), ('A', 0, 0), ('B', 1, 2), ('A', 1, 1), ('B', 0, 0), ('A', 1, 2)]),
    ('release first', [('C', 0, 0), ('C', 1, 1), ('C', 0, 0), ('C', 0, 0), ('C', 1, 1)]),
    ('repeats', [('A', 1, 1), ('A', 1, 2), ('A', 1, 2), ('A', 0, 0), ('A', 1, 1), ('A', 1, 2)]),
    ('button', [('ButtonLeft', 1, 1), ('A', 1, 1), ('ButtonLeft', 0, 0), ('ButtonLeft', 1, 1), ('A', 0, 0)]),
    ('three keys released in order', [('A', 1, 1), ('B', 1, 1), ('C', 1, 1), ('A', 0, 0), ('B', 0, 0), ('C', 0, 0), ('A', 1, 1), ('B', 1, 1), ('C', 1, 1)]),
  ]
  for name, seq in seqs:
    I = Interp(P, Spec(interest=lambda n: node_calls(n, 'write', 'open', 'ioctl') or n['k'] == 'Mem' and not callee(n) and
      'VirtualDevice' in (n.get('q') or ''), on_call=on_call, cap=24, retcap=8))
    obj = mk('OBJ', 'VirtualDevices')
    I.stack.append((None, 0, False, None))
    states = [x for x, v in I.invoke(create, State(mon=()), obj, [], {'_i': ('c', 0), 'l': 0, '_f': create['id'], 'k': 'entry'})
      if I.truth(x, v) is not False]
    for i, (k, d, want) in enumerate(seq):
      rec = mk('rec', ZERO, (('KeyEvent::key', C(kv(k))), ('KeyEvent::state', down if d else up), ('KeyEvent::value', C0)))
      for s in states:
        s.mon = ()
      r = stepwise(I, send, states, obj, lambda s: [rec], ('s', i))
      states = [x for x, v in r if I.truth(x, v) is not False]
      if not states:
        raise AnalysisError('no successful path for the key sequence')
      for x in states:
        vals = [unzero(v) for c, v in x.mon]
        if len(vals) != 1:
          ctx.ob('repeat', name, False, P.where(send), 'event %d wrote %d key events' % (i, len(vals)))
          continue
        iv = I.interval(x, vals[0])
        if iand(iv, ((want, want),)) and iv != ((want, want),):
          raise AnalysisError('value of event %d of "%s" not decided: %s' % (i, name, iv))
        ctx.ob('repeat', name, iv == ((want, want),), P.where(send),
          'event %d (%s %s) is written with value %s instead of %d' % (i, k, 'press' if d else 'release', iv, want))
    I.stack.pop()
    ctx.used(I)

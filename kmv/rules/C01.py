"""C01: peers agree on the encoding of every message they exchange."""
from .common import *
from .wire import *
from .C06 import member, ty

TECHNIQUE = 'abstract interpretation of every writer and of the reader at the other end over the clang AST: sequences of written and read fields with symbolic contents are matched field by field'
NOTE = ('Each sent structure is abstracted with distinct symbols for all its fields and lists of 0 to 3 elements (inner lists of 0 to 2). Sizes, order and destination of all fields are compared; '
  'the memory layout of trivially copyable values is the same at both ends because both programs are built from the same headers.')


def check(ctx):
  PK, PD, PC = load('keymapper', 'keymapperd', 'keymapperctl')
  ctx.rule('handled', 'every kind of message that is sent is recognised at the other end')
  ctx.rule('fields', 'the reader reads exactly the written fields in order with the same sizes and leaves nothing over')
  ctx.rule('places', 'every value arrives in the same-named place it was taken from')
  n = [0]
  for size in (3, 2, 1, 0):
    for sender, cls, receiver, rcls in ((PK, 'ServerPort', PD, 'ClientPort'), (PD, 'ClientPort', PK, 'ServerPort')):
      for fn in senders(sender, cls):
        for msg, I in sent(ctx, sender, fn, size):
          n[0] += 1
          receive(ctx, receiver, rcls, fn, msg, sender, I, size)
  control(ctx, PC, PK, n)
  ctx.need('messages sent', n[0], 25)


def senders(P, cls):
  """methods of a port that send a message and are not helpers of other methods of it"""
  own = [f for f in P.funcs.values() if f.get('cls') == cls and not f.get('ctor') and not f.get('dtor')]
  has = {f['id'] for f in P.funcs.values() if any(node_calls(x, 'send_message') and x['k'] == 'Call' for x in P.nodes(f))}
  out = [f for f in own if f['id'] in has or has & set(P.reach(f))]
  reads = {f['id'] for f in P.funcs.values() if any(x['k'] == 'Call' and node_calls(x, 'read_messages') for x in P.nodes(f))}
  out = [f for f in out if not reads & ({f['id']} | set(P.reach(f)))]
  ids = {f['id'] for f in out}
  called = set()
  for f in out:
    called |= {i for i in P.reach(f) if i in ids and i != f['id']}
  out = [f for f in out if f['id'] not in called]
  if not out:
    raise AnalysisError('no sending methods in %s' % cls)
  return sorted(out, key=lambda f: f['q'])



ENUM = {}


def symbol(P, I, t, path, size):
  """representative value of a type with distinct symbols"""
  rec = t.get('rec')
  b = bare(rec) if rec else None
  if rec in P.records and not b.startswith('std::'):
    if seq(P, rec):
      return mk('list', *[symbol(P, I, {'rec': 'KeyEvent'}, path + (i,), size) for i in range(size)])
    fs = []
    for c in [rec] + bases(P, rec):
      for f in P.records[c]['fields']:
        ft = f['t'] or {}
        if bare(ft.get('rec') or '') in ('std::optional', 'std::shared_ptr', 'std::unique_ptr', 'std::function'):
          continue
        fs.append((c + '::' + f['n'], symbol(P, I, ft, path + (f['n'],), size)))
    return mk('rec', ZERO, tuple(fs))
  if b in ('std::vector', 'std::deque'):
    e = (t.get('ta') or [''])[0]
    et = e if isinstance(e, dict) else named(P, e)
    return mk('list', *[symbol(P, I, et, path + (i,), min(size, 2)) for i in range(size)])
  v = mk('PARAM', 'field', path, 0)
  if t.get('enum'):
    ENUM[v] = bare(t['enum'])
  if rec:
    I.tr[mk('size', v)] = ((0, 1 << 20),)
  else:
    r = I.typerange(t)
    s = t.get('b') or t.get('s')
    I.tr[v] = ((0, 1),) if t.get('bool') or s == 'bool' else ((0, 1 << 20),) if s == 'int' else r if r is not FULL else ((0, 255),)
  return v


def named(P, s):
  s = s.strip()
  if s in P.records:
    return {'rec': s, 's': s}
  if s.startswith('std::basic_string') or s == 'std::string':
    return {'rec': 'std::basic_string', 's': s}
  if s in ('int', 'bool'):
    return {'s': s, 'b': s, 'bits': 32 if s == 'int' else 8, 'signed': s == 'int', 'bool': s == 'bool'}
  if '<' in s:
    head, arg = s.split('<', 1)
    return {'rec': head, 'ta': [split_first(arg)], 's': s}
  if s in P.enums:
    return {'enum': s, 's': s, 'bits': 16, 'signed': False}
  return {'s': s}


def split_first(a):
  d = 0
  for i, ch in enumerate(a):
    if ch == '<':
      d += 1
    elif ch == '>' and d:
      d -= 1
    elif ch in ',>' and not d:
      return a[:i]
  return a


def bases(P, rec):
  out = []
  for b in P.records[rec]['bases']:
    q = b if isinstance(b, str) else b.get('q')
    if q in P.records:
      out += [q] + bases(P, q)
  return out


def seq(P, rec):
  return any('std::vector' in (b if isinstance(b, str) else b.get('q') or '') for b in P.records[rec]['bases'])


# ------------------------------------------------------------------ writing

def content(I, st, ptr):
  v = I.rv(st, ptr)
  if v.k == 'addr' and v.a[0].k == 'E' and v.a[0].a[1] is C0:
    whole = I.load_whole(st, v.a[0].a[0])
    if whole.k not in ('list', 'rec'):
      return whole
  if v.k in ('PARAM', 's', 'strop', 'concat', 'c_str'):
    return v
  return I.load_whole(st, deref(v))


def text_data(I, st, ev):
  if ev.name in ('data', 'c_str') and ev.obj is not None and ev.cls and bare(ev.cls) in ('std::basic_string', 'std::basic_string_view', 'std::string', 'std::string_view'):
    return [(st, mk('addr', E(ev.obj, C0)))]


def raw_write(I, st, ev):
  r = text_data(I, st, ev)
  if r is not None:
    return r
  if ev.cls == 'Serializer' and ev.name == 'write' and len(ev.args) == 2:
    st.mon = st.mon + (('w', content(I, st, ev.args[0]), I.rv(st, ev.args[1])),)
    return [(st, VOID)]


def send_raw(I, st, ev):
  """Connection::send_message with the raw writes of the message"""
  if ev.name != 'send_message' or not ev.cls or bare(ev.cls) != 'Connection':
    return None
  lam = I.rv(st, ev.args[0])
  n0 = len(st.mon)
  out = []
  for s, _ in I.call_value(lam, st, [mk('LV', F(ev.obj, 'Connection::m_serializer'))], ev.node):
    ws = tuple(x for x in s.mon[n0:] if x[0] == 'w')
    s.mon = s.mon[:n0] + (('msg', ev.obj, ws),)
    r = fresh('sent')
    I.tr[r] = ((0, 1),)
    out.append((s, r))
  return out


SER = lambda I, f: True if f.get('cls') in ('Serializer', 'Deserializer') else None


def sent(ctx, P, fn, size):
  """the messages a method sends: [(writes, interp)]"""
  def on_call(I, st, ev):
    r = raw_write(I, st, ev)
    return r if r is not None else send_raw(I, st, ev)
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'send_message', 'write'), on_call=on_call, cap=100, retcap=100, unroll=12, inline=SER))
  obj = mk('OBJ', fn['cls'])
  needed = []

  def setup(I, st, args):
    vals = []
    for i, p in enumerate(fn['params']):
      t = p['t'] or {}
      v = symbol(P, I, dict(t, ref=False), (p['n'],), size)
      if v.k != 'rec' or not any(x.k in ('rec', 'list') for _, x in v.a[1]):
        needed.extend(leaves_of([v]))
      if t.get('ref'):
        l = mk('OBJ', ('argument', fn['q'], i))
        st.env[l] = v
        vals.append(mk('LV', l))
      else:
        vals.append(v)
    return vals
  r = I.run(fn, (), obj=obj, setup=setup)
  ctx.used(I)
  out = []
  for st, _ in r:
    m = [x for x in st.mon if x[0] == 'msg']
    if len(m) != 1:
      raise AnalysisError('%s sends %d messages' % (fn['q'], len(m)))
    sent_ = leaves_of([x[1] for x in m[0][2]])
    lost = [v for v in needed if v not in sent_]
    ctx.ob('places', '%s writes its arguments' % fn['q'], not lost, P.where(fn), 'the value of %s is not written or is changed' % ', '.join(dots(v.a[1]) for v in lost[:2]))
    changed = [v for v in inner([x[1] for x in m[0][2]]) if v not in sent_]
    ctx.ob('places', '%s writes unchanged values' % fn['q'], not changed, P.where(fn), 'the value of %s is changed' % ', '.join(dots(v.a[1]) for v in changed[:2]))
    if m[0][2] not in [x[0] for x in out]:
      out.append((m[0][2], I))
  if not out:
    raise AnalysisError('%s sends no message' % fn['q'])
  return out


# ------------------------------------------------------------------ reading

def show(v):
  return '%d bytes' % v.a[0] if isc(v) else 'the length of %s' % dots(v.a[0].a[1]) if v.k == 'size' and v.a[0].k == 'PARAM' else 'another length'


def raw_read(I, st, ev, feed, ctx, what):
  if ev.cls == 'Deserializer' and ev.name == 'can_read':
    return [(st, C1)]
  if ev.cls != 'Deserializer' or ev.name != 'read' or len(ev.args) != 2:
    return None
  size = I.rv(st, ev.args[1])
  pos = sum(x[1] for x in st.mon if x[0] == 'rd')
  vals, total, k = [], C0, 0
  dst = I.rv(st, ev.args[0])
  while pos + k < len(feed):
    if k and I.truth(st, eq(total, size)) is True:
      break
    _, v, sz = feed[pos + k]
    vals.append(v)
    total = add(total, sz)
    k += 1
    if I.truth(st, eq(total, size)) is True:
      break
    if isc(size) or isc(total) and isc(size):
      break
  ok = I.truth(st, eq(total, size)) is True
  if not ok and size is C0:
    k = 0
    ok = True
  if not ok:
    ctx.ob('fields', what, False, at(I, ev.node), 'the field %d of the message is written with a size of %s and read with %s' %
      (pos, show(feed[pos][2]) if pos < len(feed) else 'nothing', show(size)))
    return []
  st.mon = st.mon + (('rd', k),)
  v = vals[0] if len(vals) == 1 else mk('joined', *vals) if vals else mk('s', '')
  if dst.k == 'addr' and dst.a[0].k == 'E' and dst.a[0].a[1] is C0 and v.k not in ('rec', 'list'):
    I.write(st, dst.a[0].a[0], v, ev.node)
  else:
    I.write(st, deref(dst), v, ev.node)
  return [(st, VOID)]


def run_reader(ctx, P, fn, feed, what, args, on_call=None, obj=None, tr=None, setup0=None, owner=None):
  """runs a function that reads messages from a connection, delivering one message"""
  def hook(I, st, ev):
    if on_call:
      r = on_call(I, st, ev)
      if r is not None:
        return r
    if ev.name == 'read_messages' and ev.cls and bare(ev.cls) == 'Connection':
      if any(x[0] == 'delivered' for x in st.mon):
        return [(st, C1)]
      st.mon = st.mon + (('delivered',),)
      lam = I.rv(st, ev.args[-1])
      return [(s, C1) for s, _ in I.call_value(lam, st, [mk('LV', F(ev.obj, 'Connection::m_deserializer'))], ev.node)]
    r = text_data(I, st, ev)
    if r is not None:
      return r
    r = raw_read(I, st, ev, feed, ctx, what)
    if r is not None:
      return r
    r = raw_write(I, st, ev)
    return r if r is not None else send_raw(I, st, ev)
  def on_write(I, st, loc, val, node):
    if owner and loc.k == 'F' and loc.a[1].startswith(owner + '::'):
      I.stored.add(val)

  def interest(n):
    if n['k'] == 'Mem':
      return owner is not None and str(n.get('q')).startswith(owner + '::')
    return n['k'] == 'Call' and (node_calls(n, 'read_messages', 'send_message', 'get_key_by_name') or (callee(n) or {}).get('cls') in ('Serializer', 'Deserializer'))
  I = Interp(P, Spec(interest=interest,
    on_call=hook, on_write=on_write, cap=400, retcap=400, unroll=16, inline=SER))
  I.stored = set()
  if tr:
    I.tr.update(tr)

  def setup(I, st, a):
    if setup0:
      setup0(I, st)
    return args
  r = I.run(fn, (), obj=obj, setup=setup)
  ctx.used(I)
  return I, r


def kind_of(msg):
  if not msg or not isc(msg[0][1]):
    raise AnalysisError('message without constant kind')
  return msg[0][1].a[0]


def receive(ctx, P, cls, sender, msg, SP, SI, size):
  """delivers a sent message to the reading port of the other program"""
  fn = method(P, cls + '::read_messages')
  names = {v: k for k, v in kinds_of(P).items()}
  kind = kind_of(msg)
  what = '%s (lists of %d)' % (names.get(kind, kind), size)

  def on_call(I, st, ev):
    if ev.cls and ev.cls.endswith('MessageHandler') and ev.name.startswith('on_'):
      vals = [load_deep(I, st, a) for a in ev.args]
      st.mon = st.mon + (('h', ev.name, tuple(vals), tuple(p if isinstance(p, str) else (p or {}).get('s') for p in (ev.c.get('pt') or []))),)
      return [(st, fresh('handled'))]
    if ev.name == 'make_unique':
      vals = [load_deep(I, st, a) for a in ev.args]
      if vals and vals[0].k in ('list', 'mut'):
        return [(st, mk('owned', vals[0]))]
    if ev.name == 'is_regex':
      return [(st, C0)]           # only the text is transferred
  obj = mk('OBJ', cls)
  h = mk('OBJ', 'handler')
  I, r = run_reader(ctx, P, fn, msg, what, [mk('LV', h), mk('rec', ZERO, ((HAS, C1), (VAL, C0)))], on_call, obj, SI.tr)
  judge(ctx, P, I, r, fn, msg, what, sender, kind, SP)


def load_deep(I, st, a):
  v = I.rv(st, a)
  if a.k == 'LV':
    v = I.load_whole(st, a.a[0])
  return v


def judge(ctx, P, I, r, fn, msg, what, sender, kind, SP):
  src = leaves_of([x[1] for x in msg])
  kinds = kinds_of(P)
  for st, _ in r:
    hs = [x for x in st.mon if x[0] == 'h']
    ctx.ob('handled', what, bool(hs), P.where(fn), 'the message sent by %s is not handled' % sender['q'])
    if not hs:
      continue
    other = [h[1] for h in hs if kinds.get(h[1][len('on_'):].removesuffix('_message'), kind) != kind]
    ctx.ob('handled', what + ' by its handler', not other, P.where(fn), 'the message is handed to %s' % other)
    k = sum(x[1] for x in st.mon if x[0] == 'rd')
    ctx.ob('fields', what, k == len(msg), P.where(fn), 'the message has %d fields, %d are read' % (len(msg), k))
    if k != len(msg):
      continue
    have = {}
    for h in hs:
      for v in h[2]:
        for path, x in leaves(v, (h[1],)):
          if x.k == 'PARAM' and x.a[0] == 'field':
            have.setdefault(x, []).append(path)
    missing = [s for s in src if s not in have]
    # flags that are not stored but divide a list into stages
    split = {}
    for s in missing:
      if len([x for x in s.a[1] if isinstance(x, int)]) == 1 and isinstance(s.a[1][-2], int):
        split.setdefault(s.a[1][:-2] + s.a[1][-1:], {})[s.a[1][-2]] = s
    places = {}
    if len(split) == 1:
      flags = list(split.values())[0]
      stage, pos = -1, 0
      for i in sorted(flags):
        t = I.truth(st, flags[i]) if i else True
        ctx.ob('places', what + ': begin of stage %d is considered' % i, t is not None, P.where(fn),
          'the value of %s does not decide about the stages' % dots(flags[i].a[1]))
        if t:
          stage, pos = stage + 1, 0
        places[i] = (stage, pos)
        pos += 1
      missing = [s for s in missing if s not in flags.values()]
    ctx.ob('places', what + ': all fields arrive', not missing, P.where(fn), 'a written field is not handed on: %s' % ', '.join(dots(m.a[1]) for m in missing[:2]))
    wrong = None
    for h in hs:
      for v, t in zip(h[2], h[3]):
        if v in ENUM and bare(t.replace('const ', '').replace('&', '').strip()) != ENUM[v]:
          wrong = (v.a[1], (h[1], t))
    for v, paths in have.items():
      for p in paths:
        if not same_place(v.a[1], p, places):
          wrong = wrong or (v.a[1], p)
    ctx.ob('places', what + ': same places', wrong is None, P.where(fn), 'the value of %s arrives in %s' % (wrong and dots(wrong[0]), wrong and dots(wrong[1])))
    if src and any(isinstance(x, int) for v in src for x in v.a[1]):
      names = {x for v in have for x in v.a[1] if isinstance(x, str)}
      for q, f in received_fields(P, hs):
        n = q.rsplit('::', 1)[-1]
        if any(r.rsplit('::', 1)[-1] == n and any(g['n'] == f for g in SP.records[r]['fields']) for r in SP.records if r != q and r not in P.records):
          ctx.ob('places', what + ': %s is received' % f, f in names, P.where(fn), 'the field %s is not transferred' % f)


def received_fields(P, hs):
  """fields of records of which the reader builds lists"""
  out = set()

  def walk(v):
    if v.k == 'rec':
      for q, x in v.a[1]:
        c = q.rsplit('::', 1)[0]
        if c in P.records:
          for f in P.records[c]['fields']:
            if bare((f['t'] or {}).get('rec') or '') != 'std::optional':
              out.add((c, f['n']))
        walk(x)
    for x in v.a if v.k in ('list', 'owned') else ():
      walk(x)
  for h in hs:
    for v in h[2]:
      walk(v)
  return sorted(out)


def dots(p):
  return '.'.join(str(x) for x in p)


def inner(vals):
  """symbols within the written values except in lengths"""
  out = set()

  def walk(v):
    if v.k == 'PARAM':
      if v.a[0] == 'field':
        out.add(v)
      return
    if v.k == 'size' or v.k == 'lin' and all(x.k == 'size' for x, _ in v.a[1]):
      return
    subterms(v.a)

  def subterms(a):
    for x in a:
      if isinstance(x, tuple):
        subterms(x)
      elif hasattr(x, 'k'):
        walk(x)
  for v in vals:
    walk(v)
  return sorted(out, key=lambda v: str(v.a[1]))


def leaves_of(vals):
  out = []
  for v in vals:
    out += [x for _, x in leaves(v, ())]
  return [v for v in dict.fromkeys(out) if v.k == 'PARAM' and v.a[0] == 'field']


def leaves(v, path):
  """[(path, symbol)] of a structured value"""
  if v.k == 'rec':
    out = []
    for q, x in v.a[1]:
      out += leaves(x, path + tuple(y for y in (q.rsplit('::', 1)[-1],) if y))
    if v.a[0].k in ('rec', 'mut'):
      own = {q for q, _ in v.a[1]}
      out += [y for y in leaves(v.a[0], path) if not y[0][len(path):][:1] or y[0][len(path)] not in {q.rsplit('::', 1)[-1] for q in own}]
    return out
  if v.k == 'list':
    return [y for i, x in enumerate(v.a) for y in leaves(x, path + (i,))]
  if v.k in ('owned', 'opt', 'ptrto', 'path'):
    return leaves(v.a[0], path + ('*',))
  if v.k == 'joined':
    return [y for x in v.a for y in leaves(x, path)]
  if v.k == 'mut':
    return leaves(v.a[1], path) + [y for i, x in v.a[2] for y in leaves(x, path + (i.a[0] if isc(i) else '?',))]
  return [(path, v)]


def same_place(src, dst, places):
  """same field name and same position in lists"""
  sn = [x for x in src if isinstance(x, str)][1:]
  dn = [x for x in dst if isinstance(x, str) and x != '*'][1:]
  k = min(len(sn), len(dn))
  if k and sn[-k:] != dn[-k:]:
    return False
  si, di = [x for x in src if not isinstance(x, str)], [x for x in dst if not isinstance(x, str)]
  if len(di) == len(si) + 1 and si and si[0] in places:      # lists of stages of contexts
    return tuple(di[:2]) == places[si[0]] and di[2:] == si[1:]
  return si == di


# ------------------------------------------------------------------ control

def control(ctx, PC, PK, n):
  names = {v: k for k, v in kinds_of(PK).items()}
  cands = [f for f in PK.funcs.values() if f['q'] == 'ControlPort::read_messages' and len(f['params']) == 1]
  if len(cands) != 1:
    raise AnalysisError('ControlPort::read_messages: %d candidates' % len(cands))
  fn = cands[0]
  conns = member(PK, 'ControlPort', lambda t: bare(t.get('rec') or '') in ('std::map', 'std::unordered_map', 'std::vector') and 'Control' in ty(t), 'connections')
  crec = [r for r in PK.records if r.startswith('ControlPort::') and any((f['t'] or {}).get('rec') == 'Connection' for f in PK.records[r]['fields'])][0]
  conn = member(PK, crec, lambda t: t.get('rec') == 'Connection', 'connection')
  obj = mk('OBJ', 'ControlPort')
  list_ = F(obj, conns)
  sock = mk('PARAM', 'sock', 0, 0)
  vkey = mk('PARAM', 'named', 'virtual', 0)
  replies = {}

  def setup0(I, st):
    I.tr[sock] = ((0, 1 << 20),)
    I.tr[vkey] = ((enum_val(PK, 'Key', 'first_virtual'), enum_val(PK, 'Key', 'last_virtual')),)
    st.env[list_] = mk('list', mk('rec', ZERO, (('std::pair::first', sock), ('std::pair::second',
      mk('rec', ZERO, ((conn, mk('rec', ZERO, (('Connection::m_socket_fd', sock),))),))))))

  def on_call(I, st, ev):
    if ev.cls and ev.cls.endswith('MessageHandler') and ev.name.startswith('on_'):
      st.mon = st.mon + (('h', ev.name, tuple(load_deep(I, st, a) for a in ev.args)),)
      r = fresh('handled')
      I.tr[r] = ((0, 1),)
      return [(st, r)]
    if ev.name == 'get_key_by_name':
      st.mon = st.mon + (('h', 'name', (load_deep(I, st, ev.args[0]),)),)
      return [(st, vkey)]

  for s in senders(PC, 'ClientPort'):
    if s['n'].startswith('read_'):
      continue
    for msg, SI in sent(ctx, PC, s, 1):
      n[0] += 1
      kind = kind_of(msg)
      what = '%s from the control program' % names.get(kind, kind)
      I, r = run_reader(ctx, PK, fn, msg, what, [mk('LV', mk('OBJ', 'handler'))], on_call, obj, SI.tr, setup0, crec)
      src = leaves_of([x[1] for x in msg])
      have = set(I.stored)
      for st, _ in r:
        rd = [x for x in st.mon if x[0] == 'rd']
        k = sum(x[1] for x in rd)
        hs = [x for x in st.mon if x[0] == 'h']
        out = [x for x in st.mon if x[0] == 'msg']
        pend = I.load_whole(st, F(E(list_, C0), 'std::pair::second'))
        ctx.ob('handled', what, bool(hs or out) or k > 1 or pend_changed(I, st, list_, crec, PK), PK.where(fn), 'the message sent by %s is not handled' % s['q'])
        ctx.ob('fields', what, k == len(msg), PK.where(fn), 'the message has %d fields, %d are read' % (len(msg), k))
        have |= set(leaves_of([v for h in hs for v in h[2]] + [pend]))
        other = [h[1] for h in hs if kinds_of(PK).get(h[1][len('on_'):].removesuffix('_message'), kind) != kind]
        ctx.ob('handled', what + ' by its handler', not other, PK.where(fn), 'the message is handed to %s' % other)
        for m in out:
          replies.setdefault(kind_of(m[2]), {})[m[2]] = I.tr
      missing = [x for x in src if x not in have]
      ctx.ob('places', what + ': all fields arrive', not missing, PK.where(fn), 'a written field is not handed on: %s' % [m.a[1] for m in missing[:2]])
  # deferred replies
  info = method(PK, 'ControlPort::reply_next_key_info')

  def on_call2(I, st, ev):
    r = raw_write(I, st, ev)
    return r if r is not None else send_raw(I, st, ev)
  I = Interp(PK, Spec(interest=lambda n: node_calls(n, 'send_message', 'write'), on_call=on_call2, cap=100, retcap=100, unroll=12, inline=SER))
  text = mk('PARAM', 'field', ('info',), 0)
  I.tr[mk('size', text)] = ((0, 1 << 20),)

  def setup(I, st, args):
    setup0(I, st)
    l = mk('OBJ', 'info')
    st.env[l] = text
    flags = [crec + '::' + f['n'] for f in PK.records[crec]['fields'] if (f['t'] or {}).get('bool')]
    for q in flags:
      st.env[F(F(E(list_, C0), 'std::pair::second'), q)] = C1
    return [mk('LV', l)]
  r = I.run(info, (), obj=obj, setup=setup)
  ctx.used(I)
  for st, _ in r:
    for m in st.mon:
      if m[0] == 'msg':
        replies.setdefault(kind_of(m[2]), {})[m[2]] = I.tr
  ctx.need('kinds of replies', len(replies), 2)
  readers = [f for f in PC.funcs.values() if f.get('cls') == 'ClientPort' and any(x['k'] == 'Call' and node_calls(x, 'read_messages') for x in PC.nodes(f))]
  ctx.need('readers of replies', len(readers), 2)
  for kind, msgs in sorted(replies.items()):
    for msg, tr in msgs.items():
      n[0] += 1
      handled = 0
      for fn2 in readers:
        args = []
        res = mk('OBJ', 'result')
        for p in fn2['params']:
          t = p['t'] or {}
          args.append(mk('addr', res) if t.get('ptr') else mk('LV', res) if t.get('ref') else mk('rec', ZERO, ((HAS, C1), (VAL, C0))))
        I, r = run_reader(ctx, PC, fn2, msg, 'reply %s' % names[kind], args, None, mk('OBJ', 'ClientPort'), tr)
        for st, _ in r:
          rd = [x for x in st.mon if x[0] == 'rd']
          k = sum(x[1] for x in rd)
          if k <= 1 and len(msg) > 1:
            continue         # another kind is awaited
          handled += 1
          ctx.ob('fields', 'reply %s' % names[kind], k == len(msg), PC.where(fn2), 'the message has %d fields, %d are read' % (len(msg), k))
          v = I.load_whole(st, res)
          got = [x for _, x in leaves(v, ())] + [v]
          last = msg[-1][1]
          ctx.ob('places', 'reply %s' % names[kind], last in got or any(last is x for x in got) or isc(last) and any(isc(x) and x.a[0] == last.a[0] for x in got),
            PC.where(fn2), 'the replied value is not stored in the result')
      ctx.ob('handled', 'reply %s' % names[kind], handled > 0, PK.where(cands[0]), 'no reader of the control program handles the reply')


def pend_changed(I, st, list_, crec, P):
  for f in P.records[crec]['fields']:
    if (f['t'] or {}).get('bool'):
      v = I.load(st, F(F(E(list_, C0), 'std::pair::second'), crec + '::' + f['n']))
      if I.truth(st, v) is True:
        return True
  return False

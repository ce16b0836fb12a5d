"""C04: message framing survives partial reads and writes."""
from .common import *

TECHNIQUE = 'abstract interpretation of sending, receiving and decoding over the clang AST with symbolic lengths (linear facts about stream positions)'
NOTE = ('Every outcome of each system call (all, part, nothing, interrupted, closed, failed) with symbolic byte counts; histories of up to four calls of send and recv '
  'and up to three messages per received block are followed, later rounds repeat the same code from the same kind of state.')

EINTR, EAGAIN, EOTHER = 4, 11, 104
CONTENT = mk('PARAM', 'message', 'bytes', 0)
N = mk('size', CONTENT)
ERRNO = mk('OBJ', 'errno')
TOP = 1 << 20


def check(ctx):
  ctx.rule('sent', 'a message is sent as its length followed by its bytes; a partially accepted send continues with the first unsent byte; '
    'success is reported only when everything was sent and failure only when the connection failed')
  ctx.rule('received', 'received bytes are appended to the ones kept from before without gap, loss or overflow of the buffer')
  ctx.rule('delivered', 'a handler is only given a message of which all bytes were received, each message once and in order, and every complete message')
  ctx.rule('kept', 'exactly the bytes of the handled messages are removed, the bytes of an incomplete message are kept')
  ctx.rule('decoded', 'decoding a field only accesses received bytes')
  counts = {'send': 0, 'read': 0, 'decode': 0}
  for P in load('keymapper', 'keymapperd', 'keymapperctl'):
    for fn in [f for f in P.funcs.values() if f['q'] == 'Connection::send_message' and f.get('body')]:
      counts['send'] += 1
      sending(ctx, P, fn)
    for fn in [f for f in P.funcs.values() if f['q'] == 'Connection::read_messages' and f.get('body')]:
      counts['read'] += 1
      receiving(ctx, P, fn)
      messages(ctx, P, fn)
    for fn in [f for f in P.funcs.values() if f.get('cls') == 'Deserializer' and not f.get('ctor') and not f.get('dtor') and not f.get('implicit') and
        any(node_calls(x, 'memcpy', 'copy', 'copy_n', 'memmove') for x in P.nodes(f))]:
      counts['decode'] += 1
      decoding(ctx, P, fn)
  ctx.need('instances of sending a message', counts['send'], 15)
  ctx.need('instances of reading messages', counts['read'], 4)
  ctx.need('instances of decoding', counts['decode'], 3)


def fields(P, cls, pred, what):
  fs = [cls + '::' + f['n'] for f in P.records[cls]['fields'] if pred(f['t'] or {})]
  if len(fs) != 1:
    raise AnalysisError('%s of %s not identified' % (what, cls))
  return fs[0]


def layout(P):
  ser = fields(P, 'Connection', lambda t: t.get('rec') == 'Serializer', 'serializer')
  des = fields(P, 'Connection', lambda t: t.get('rec') == 'Deserializer', 'deserializer')
  vec = lambda t: bare(t.get('rec') or '') == 'std::vector'
  return ser, fields(P, 'Serializer', vec, 'buffer'), des, fields(P, 'Deserializer', vec, 'buffer'), \
    fields(P, 'Deserializer', lambda t: not vec(t), 'position')


def errno_hook(I, st, ev):
  if ev.name == '__errno_location':
    return [(st, mk('addr', ERRNO))]


def is_syscall(ev, name):
  return ev.name == name and not ev.cls and not ev.targets


def failed(I, st, code):
  s = st.copy()
  s.env[ERRNO] = C(code)
  return s


def partial(I, st, length, i):
  """[(state, count)]: all or a part of the bytes"""
  out = []
  s = st.copy()
  if I.assume(s, cmp('<=', C1, length), True):
    out.append((s, length))
  r = mk('PARAM', 'part', i, 0)
  I.tr[r] = ((1, TOP),)
  s = st.copy()
  if I.assume(s, cmp('<', r, length), True):
    out.append((s, r))
  return out


def place(ptr):
  l = deref(ptr)
  return (l.a[0], l.a[1]) if l.k == 'E' else (l, C0)


def whole(l):
  return l.a[0] if l.k == 'E' and l.a[1] is C0 else l


def copied(I, st, ev):
  """(location of source, number of bytes, location of target) of a copy of bytes"""
  if ev.cls:
    return None
  if ev.name in ('memcpy', 'memmove'):
    dst, src, n = (I.rv(st, x) for x in ev.args)
    return deref(src), n, deref(dst)
  if ev.name in ('copy', 'copy_n') and len(ev.args) == 3:
    a, b, dst = (I.rv(st, x) for x in ev.args)
    if a.k == 'it':
      i = lambda x: x.a[1] if x.k == 'it' and x.a[0] is a.a[0] else None
      n = b if ev.name == 'copy_n' else sub(i(b), i(a)) if i(b) is not None else None
      return E(a.a[0], a.a[1]), n, deref(dst)
  return None


def advanced(I, st, ptr, base, k):
  """whether a pointer is the base pointer advanced by k"""
  (a, i), (b, j) = place(ptr), place(base)
  return a is b and I.truth(st, eq(sub(i, j), k)) is True


INLINE = lambda I, f: True if f.get('cls') in ('Connection', 'Serializer', 'Deserializer') else None
KEEP = lambda n: node_calls(n, 'send', 'recv', 'memcpy', 'memmove', 'copy', 'copy_n', 'select', 'poll')


# ------------------------------------------------------------------ sending

def sending(ctx, P, fn):
  ser, sbuf, des, dbuf, it = layout(P)
  obj = mk('OBJ', 'Connection')
  buf = F(F(obj, ser), sbuf)

  def on_call(I, st, ev):
    r = errno_hook(I, st, ev)
    if r:
      return r
    if ev.name == 'operator()' and len(ev.args) == 1 and ev.args[0].k == 'LV' and ev.args[0].a[0] is F(obj, ser):
      ctx.ob('sent', 'serializing starts with an empty buffer', I.truth(st, eq(I.sizeterm(st, buf), C0)) is True, at(I, ev.node),
        'a message is appended to bytes which were already sent')
      I.write(st, buf, CONTENT, ev.node)
      return [(st, VOID)]
    if is_syscall(ev, 'send'):
      ptr, length = I.rv(st, ev.args[1]), I.rv(st, ev.args[2])
      chunk, base, total, done, calls, last = st.mon
      key = 'send of ' + ('the length', 'the bytes')[min(chunk, 1)]
      if base is None or I.truth(st, eq(done, total)) is True:
        if base is not None:
          chunk += 1
        key = 'send of ' + ('the length', 'the bytes')[min(chunk, 1)]
        base, total, done = ptr, length, C0
        if chunk == 0:
          v = I.load(st, whole(deref(ptr)))
          ctx.ob('sent', 'length precedes the bytes', v is N and length is C(4), at(I, ev.node), 'the first sent bytes are not the length of the message')
        elif chunk == 1:
          ctx.ob('sent', 'bytes follow the length', deref(ptr) is E(buf, C0) and I.truth(st, eq(length, N)) is True, at(I, ev.node),
            'the bytes following the length are not the ones of the message')
        else:
          ctx.ob('sent', 'nothing follows the bytes', I.truth(st, eq(length, C0)) is True, at(I, ev.node), 'more bytes are sent after the message')
      else:
        ctx.ob('sent', key + ' continues', advanced(I, st, ptr, base, done), at(I, ev.node), 'sending does not continue with the first unsent byte')
        ctx.ob('sent', key + ' is limited to the rest', I.truth(st, cmp('<=', add(done, length), total)) is True, at(I, ev.node), 'more than the unsent bytes are sent')
      calls += 1
      if calls > 4:
        return []
      out = []
      for s, k in partial(I, st, length, calls):
        s.mon = (chunk, base, total, add(done, k), calls, 'ok')
        out.append((s, k))
      for code in (EINTR, EAGAIN, EOTHER):
        s = failed(I, st, code)
        s.mon = (chunk, base, total, done, calls, code)
        out.append((s, C(-1)))
      return out

  def on_leave(I, st, f, v, node):
    if f['id'] != fn['id']:
      return
    chunk, base, total, done, calls, last = st.mon
    t = I.truth(st, v)
    if t is None:
      raise AnalysisError('undecided result of sending')
    complete = base is not None and I.truth(st, eq(done, total)) is True and (chunk == 1 or I.truth(st, eq(N, C0)) is True)
    if t:
      ctx.ob('sent', 'success only after everything was sent', complete, P.where(fn), 'success is reported although not all bytes were sent')
    else:
      ctx.ob('sent', 'failure only when the connection failed', last == EOTHER, P.where(fn), 'failure is reported although the connection did not fail')
  I = Interp(P, Spec(interest=KEEP, on_call=on_call, on_leave=on_leave, inline=INLINE, cap=2000, retcap=2000))

  def setup(I, st, args):
    I.tr[N] = ((0, TOP),)
    st.env[buf] = mk('PARAM', 'old', 'bytes', 0)
  r = I.run(fn, (0, None, None, C0, 0, None), obj=obj, setup=setup)
  ctx.used(I)
  if not r:
    raise AnalysisError('sending does not return')


# ------------------------------------------------------------------ receiving

def receiving(ctx, P, fn):
  """bytes are appended to the buffer; ends where messages are decoded"""
  ser, sbuf, des, dbuf, it = layout(P)
  obj = mk('OBJ', 'Connection')
  buf = F(F(obj, des), dbuf)
  old = mk('PARAM', 'kept', 'bytes', 0)
  n0 = mk('size', old)
  reached = [0]

  def on_call(I, st, ev):
    r = errno_hook(I, st, ev)
    if r:
      return r
    got, history = st.mon
    if is_syscall(ev, 'select') or is_syscall(ev, 'poll'):
      s = failed(I, st, EOTHER)
      return [(st, C1), (s, C(-1))]
    if is_syscall(ev, 'recv'):
      ptr, length = I.rv(st, ev.args[1]), I.rv(st, ev.args[2])
      l = deref(ptr)
      if l.k != 'E' or l.a[0] is not buf:
        raise AnalysisError('received into something else than the buffer: %s' % at(I, ev.node))
      have = add(n0, got)
      ctx.ob('received', 'received bytes follow the kept ones', I.truth(st, eq(l.a[1], have)) is True, at(I, ev.node),
        'bytes are not received behind the ones received before')
      ctx.ob('received', 'received bytes fit into the buffer', I.truth(st, cmp('<=', add(l.a[1], length), I.sizeterm(st, buf))) is True, at(I, ev.node),
        'more bytes may be received than the buffer can hold')
      if len(history) > 2:
        return []
      out = []
      for i, (s, k) in enumerate(partial(I, st, length, len(history))):
        s.mon = (add(got, k), history + (('all', 'part')[i],))
        out.append((s, k))
      for code in (EINTR, EAGAIN, EOTHER):
        s = failed(I, st, code)
        s.mon = (got, history + (code,))
        out.append((s, C(-1)))
      st.mon = (got, history + ('closed',))
      out.append((st, C0))
      return out
    if ev.obj is buf and ev.name in ('resize', 'clear', 'erase', 'pop_back', 'assign', 'operator=', 'swap', 'insert'):
      if ev.name == 'resize':
        ctx.ob('received', 'shrinking keeps received bytes', I.truth(st, cmp('<=', add(n0, got), I.rv(st, ev.args[0]))) is True, at(I, ev.node),
          'the buffer is made smaller than the received bytes')
      else:
        ctx.ob('received', 'the buffer is only resized while receiving', False, at(I, ev.node), 'received bytes are dropped')
    if ev.cls == 'Deserializer':
      reached[0] += 1
      ctx.ob('received', 'the buffer ends with the received bytes', I.truth(st, eq(I.sizeterm(st, buf), add(n0, got))) is True, at(I, ev.node),
        'messages are decoded from bytes which were not received')
      ctx.ob('received', 'a failed connection is reported', bool(set(history) & {'all', 'part'}) or not set(history) & {'closed', EOTHER}, at(I, ev.node), 'reading goes on although the connection failed')
      return []

  def on_leave(I, st, f, v, node):
    if f['id'] == fn['id'] and I.truth(st, v) is not True:
      ctx.ob('received', 'failure only when the connection failed', bool(set(st.mon[1]) & {'closed', EOTHER}) or not st.mon[1], P.where(fn),
        'a failure is reported although the connection did not fail')
  I = Interp(P, Spec(interest=KEEP, on_call=on_call, on_leave=on_leave, inline=INLINE, cap=4000, retcap=4000, unroll=8))

  def setup(I, st, args):
    I.tr[n0] = ((0, TOP),)
    st.env[buf] = old
  I.run(fn, (C0, ()), obj=obj, setup=setup)
  ctx.used(I)
  if not reached[0]:
    raise AnalysisError('no decoding of received messages found: %s' % P.where(fn))


# ------------------------------------------------------------------ messages

def messages(ctx, P, fn):
  """a block of received bytes is divided into messages"""
  ser, sbuf, des, dbuf, itq = layout(P)
  obj = mk('OBJ', 'Connection')
  buf = F(F(obj, des), dbuf)
  pos = F(F(obj, des), itq)
  old = mk('PARAM', 'kept', 'bytes', 0)
  n0 = mk('size', old)

  def position(I, st):
    v = I.load(st, pos)
    if v.k == 'it' and v.a[0] is buf:
      return v.a[1]
    raise AnalysisError('position in received bytes not understood: %s' % v)

  def on_call(I, st, ev):
    r = errno_hook(I, st, ev)
    if r:
      return r
    head, sizes, count, removed, wrong = st.mon
    if is_syscall(ev, 'select') or is_syscall(ev, 'poll'):
      return [(st, C1)]
    if is_syscall(ev, 'recv'):
      return [(failed(I, st, EAGAIN), C(-1))]
    c = copied(I, st, ev)
    if c:
      src, size, dst = c
      if src.k == 'E' and src.a[0] is buf and size is C(4):
        v = fresh('size')
        I.tr[v] = ((0, (1 << 32) - 1),)
        I.write(st, whole(dst), v, ev.node)
        st.mon = (head, sizes + ((src.a[1], v),), count, removed, wrong)
        return [(st, fresh('dst'))]
    if ev.name == 'operator()' and len(ev.args) == 1 and ev.args[0].k == 'LV' and ev.args[0].a[0] is F(obj, des):
      p = position(I, st)
      size = [v for q, v in sizes if I.truth(st, eq(q, head)) is True]
      ctx.ob('delivered', 'messages are handled in order without gap', bool(size) and I.truth(st, eq(p, add(head, C(4)))) is True, at(I, ev.node),
        'a message is handled which does not begin where the last one ended')
      if not size:
        return []
      end = add(p, size[-1])
      ctx.ob('delivered', 'all bytes of a handled message were received', I.truth(st, cmp('<=', end, n0)) is True, at(I, ev.node),
        'a message is handled before all its bytes were received')
      if count >= 3:
        return []
      bad = st.copy()
      st.env[pos] = mk('it', buf, end)
      st.mon = (end, (), count + 1, removed, wrong)
      x = fresh('consumed')
      I.tr[x] = ((0, TOP),)
      I.constrain(bad, sub(x, end), ((-INF, -1),))
      bad.env[pos] = mk('it', buf, x)
      bad.mon = (end, (), count + 1, removed, True)
      return [(st, VOID), (bad, VOID)]
    if ev.obj is buf and ev.name in ('erase', 'clear', 'resize', 'assign', 'operator=', 'swap', 'pop_back'):
      ok = False
      n = None
      if ev.name == 'erase' and len(ev.args) == 2:
        a, b = (I.rv(st, x) for x in ev.args)
        if a.k == 'it' and b.k == 'it' and a.a[1] is C0:
          n = b.a[1]
      elif ev.name == 'clear':
        n = n0
      elif ev.name == 'resize' and not count and I.truth(st, eq(n0, I.rv(st, ev.args[0]))) is True:
        I.write(st, buf, old, ev.node)
        return [(st, VOID)]
      elif ev.name == 'resize' and not count and I.truth(st, cmp('<=', n0, I.rv(st, ev.args[0]))) is True:
        return None
      if n is None:
        raise AnalysisError('change of received bytes not understood: %s' % at(I, ev.node))
      ctx.ob('kept', 'only bytes of handled messages are removed', I.truth(st, cmp('<=', n, head)) is True, at(I, ev.node),
        'bytes of messages which are not yet handled are removed')
      ctx.ob('kept', 'messages are removed once', removed is None, at(I, ev.node), 'messages are removed twice')
      st.mon = (head, sizes, count, n, wrong)
      return None

  def on_leave(I, st, f, v, node):
    if f['id'] != fn['id']:
      return
    head, sizes, count, removed, wrong = st.mon
    t = I.truth(st, v)
    if t is None:
      raise AnalysisError('undecided result of reading messages')
    if not t:
      ctx.ob('kept', 'failure only when a message was not decoded completely', wrong, P.where(fn), 'reading fails although all messages were decoded')
      return
    ctx.ob('kept', 'a wrongly decoded message is reported', not wrong, P.where(fn), 'reading goes on although a handler did not consume exactly its message')
    if wrong:
      return
    ctx.ob('kept', 'handled messages are removed', removed is not None and I.truth(st, eq(removed, head)) is True or
      removed is None and I.truth(st, eq(head, C0)) is True, P.where(fn), 'handled messages are kept and handled again')
    short = I.truth(st, cmp('<', n0, add(head, C(4)))) is True
    size = [v for q, v in sizes if I.truth(st, eq(q, head)) is True]
    ctx.ob('delivered', 'every complete message is handled', short or bool(size) and I.truth(st, cmp('<', n0, add(add(head, C(4)), size[-1]))) is True, P.where(fn),
      'a complete message may stay unhandled')
  I = Interp(P, Spec(interest=KEEP, on_call=on_call, on_leave=on_leave, inline=INLINE, cap=4000, retcap=4000, unroll=8))

  def setup(I, st, args):
    I.tr[n0] = ((0, TOP),)
    st.env[buf] = old
  r = I.run(fn, (C0, (), 0, None, False), obj=obj, setup=setup)
  ctx.used(I)
  if not r:
    raise AnalysisError('reading messages does not return')


# ------------------------------------------------------------------ decoding

def decoding(ctx, P, fn):
  ser, sbuf, des, dbuf, itq = layout(P)
  obj = mk('OBJ', 'Deserializer')
  buf, pos = F(obj, dbuf), F(obj, itq)
  old = mk('PARAM', 'received', 'bytes', 0)
  n0 = mk('size', old)
  p0 = mk('PARAM', 'position', 0, 0)
  copies = [0]

  def on_call(I, st, ev):
    c = copied(I, st, ev)
    if c:
      src, size, dst = c
      if size is None or src.k != 'E' or src.a[0] is not buf:
        raise AnalysisError('decoding from something else than received bytes: %s' % at(I, ev.node))
      copies[0] += 1
      ctx.ob('decoded', 'only received bytes are accessed', I.truth(st, cmp('<=', add(src.a[1], size), n0)) is True, at(I, ev.node),
        'bytes behind the received ones are accessed')
      ctx.ob('decoded', 'decoding begins at the position', I.truth(st, eq(src.a[1], p0)) is True, at(I, ev.node), 'a field is not decoded from the current position')
      st.mon = size
      return [(st, fresh('dst'))]

  def on_leave(I, st, f, v, node):
    if f['id'] == fn['id']:
      q = I.load(st, pos)
      ok = q.k == 'it' and q.a[0] is buf and I.truth(st, eq(q.a[1], add(p0, st.mon))) is True
      ctx.ob('decoded', 'the position advances by the decoded bytes', ok, P.where(fn), 'the position is not advanced by the number of decoded bytes')
  I = Interp(P, Spec(interest=KEEP, on_call=on_call, on_leave=on_leave, inline=INLINE, cap=400, retcap=400))

  def setup(I, st, args):
    I.tr[n0] = ((0, TOP),)
    I.tr[p0] = ((0, TOP),)
    st.env[buf] = old
    st.env[pos] = mk('it', buf, p0)
    I.assume(st, cmp('<=', p0, n0), True)
  r = I.run(fn, C0, obj=obj, setup=setup)
  ctx.used(I)
  if not copies[0]:
    raise AnalysisError('nothing is decoded: %s' % P.where(fn))

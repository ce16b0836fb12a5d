"""C29: started programs do not inherit the connections of the client."""
from .common import *
from .C11 import sysname, sys_nodes, descriptor_fields
from .C26 import subterms

TECHNIQUE = 'typestate analysis of sockets by abstract interpretation over the clang AST (every socket kept by a host or connection is marked close-on-exec)'
NOTE = ('Sockets are followed from the opening call to the field of the host or the returned connection; setting the descriptor flag is assumed to succeed on an open '
  'descriptor. Descriptors opened by libraries (X11, Wayland, D-Bus) are not examined.')

SOCKETS = ('socket', 'accept', 'accept4', 'dup', 'dup2', 'dup3', 'socketpair')
SOCK_CLOEXEC = 0o2000000
O_CLOEXEC = 0o2000000
F_DUPFD, F_SETFD, F_DUPFD_CLOEXEC = 0, 2, 1030
FIONCLEX, FIOCLEX = 0x5450, 0x5451
NAMES = SOCKETS + ('fcntl', 'fcntl64', 'ioctl', 'close')
FLAG_ARG = {'socket': 1, 'accept4': 3, 'dup3': 2}


def has_bit(v, bit):
  """True / False / None: the bit is set in the term"""
  if isc(v):
    return bool(v.a[0] & bit)
  if v.k == 'bitor':
    r = [has_bit(x, bit) for x in v.a if hasattr(x, 'k')]
    return True if True in r else None
  return None


def check(ctx):
  ctx.rule('marked', 'every socket a host keeps for listening or returns as connection was marked to be closed when another program is started')
  ctx.rule('kept', 'the mark is not removed and sockets are not duplicated without it')
  P = load('keymapper')
  starts = [(f, n) for f in P.funcs.values() for n in sys_nodes(P, f, ('execl', 'execlp', 'execle', 'execv', 'execvp', 'execve', 'system', 'popen', 'posix_spawn', 'posix_spawnp'))]
  for f, n in starts:
    ctx.site('%s:%s' % (P.where(f), n.get('l')))
  ctx.need('calls starting programs', len(starts), 1)
  covered = set()
  host(ctx, P, covered)
  rest(ctx, P, covered)


def host(ctx, P, covered):
  cls = 'Host'
  fs = descriptor_fields(P, cls)
  if len(fs) != 1:
    raise AnalysisError('listening socket not found')
  field = fs[0]
  obj = mk('OBJ', cls, 'this')
  A = mk('PARAM', 'socket', 'own', 0)
  kept = 0

  for fn in [P.find1(cls + '::' + m) for m in ('listen', 'accept', 'connect')]:
    ends = [0, 0]

    def opened(I, st, ev, marked):
      covered.add(id(ev.node))
      op, mk_ = st.mon
      k = 0
      where = at(I, ev.node)
      fd = mk('PARAM', 'socket', where, k)
      while fd in op:
        k += 1
        fd = mk('PARAM', 'socket', where, k)
      if k >= 3:
        return []
      I.tr[fd] = ((0, 1023),)
      s = st.copy()
      st.mon = (op | {fd}, mk_ | ({fd} if marked else frozenset()))
      return [(st, fd), (s, C(-1))]

    def on_call(I, st, ev):
      if ev.cls == 'Connection' and ev.name in ('send', 'read', 'recv'):
        if ev.name == 'read' and ev.args:
          I.write(st, deref(I.rv(st, ev.args[0])), fresh('received'), ev.node)
        return [(st.copy(), C1), (st, C0)]
      if sysname(ev, ('bind', 'listen', 'connect')):
        return [(st.copy(), C0), (st, C(-1))]
      if sysname(ev, SOCKETS):
        i = FLAG_ARG.get(ev.name)
        marked = i is not None and len(ev.args) > i and has_bit(I.rv(st, ev.args[i]), SOCK_CLOEXEC) is True
        return opened(I, st, ev, marked)
      if sysname(ev, ('fcntl', 'fcntl64')) and len(ev.args) >= 2:
        fd, c = I.rv(st, ev.args[0]), I.rv(st, ev.args[1])
        if not isc(c):
          raise AnalysisError('unknown command: %s' % at(I, ev.node))
        if c.a[0] in (F_DUPFD, F_DUPFD_CLOEXEC):
          return opened(I, st, ev, c.a[0] == F_DUPFD_CLOEXEC)
        if c.a[0] == F_SETFD and fd in st.mon[0]:
          covered.add(id(ev.node))
          r = has_bit(I.rv(st, ev.args[2]), 1) if len(ev.args) > 2 else False
          st.mon = (st.mon[0], st.mon[1] | {fd} if r is True else st.mon[1] - {fd})
          return [(st, C0)]
      if sysname(ev, ('ioctl',)) and len(ev.args) >= 2:
        fd, c = I.rv(st, ev.args[0]), I.rv(st, ev.args[1])
        if isc(c) and c.a[0] in (FIOCLEX, FIONCLEX) and fd in st.mon[0]:
          st.mon = (st.mon[0], st.mon[1] | {fd} if c.a[0] == FIOCLEX else st.mon[1] - {fd})
          return [(st, C0)]

    def on_leave(I, st, f, v, node):
      if f['id'] != fn['id']:
        return
      ends[0] += 1
      held = set()
      for k, x in st.env.items():
        if k.k == 'F' and (k is obj or under(k, obj)):
          held |= {y for y in subterms(x) if y in st.mon[0]}
      if v is not None:
        held |= {y for y in subterms(v) if y in st.mon[0]}
        if v.k not in ('rec', 'const', 'C') and v.k != 'PARAM':
          w = I.load_whole(st, v) if v.k in ('OBJ', 'V', 'T') else v
          held |= {y for y in subterms(w) if y in st.mon[0]}
      if fn['n'] == 'listen' and I.truth(st, v) is False:
        return
      ends[1] += len(held)
      for d in held:
        ctx.ob('marked', 'socket kept by %s' % fn['n'], d in st.mon[1], str(d.a[1]), 'a socket is kept open which started programs inherit')

    def inl(I, f):
      if f.get('cls') == cls:
        return True
      if f.get('cls') == 'Connection':
        return bool(f.get('ctor')) or f['n'] == 'operator='
      if f.get('dtor'):
        return False
      # helpers using a connection
      if (not f.get('cls') or f.get('lambda')) and any(g.get('cls') == 'Connection' for g in P.reach(f).values()):
        return True
      if not f.get('cls') and not f.get('lambda') and not any(sys_nodes(P, g, NAMES) for g in P.reach(f).values()):
        return False
    I = Interp(P, Spec(interest=lambda n: node_calls(n, *NAMES), on_call=on_call, on_leave=on_leave, inline=inl, cap=60, retcap=60, unroll=3))

    def setup(I, st, args):
      I.tr[A] = ((3, 1023),)
      st.env[F(obj, field)] = A if fn['n'] == 'accept' else C(-1)
    I.run(fn, (frozenset(), frozenset()), obj=obj, setup=setup)
    ctx.used(I)
    ctx.need('ends of %s' % fn['q'], ends[0], 2)
    ctx.need('sockets kept by %s' % fn['q'], ends[1], 1)


def rest(ctx, P, covered):
  """calls of other functions"""
  n = 0
  for f in P.funcs.values():
    if f.get('cls') == 'Host':
      continue
    for x in sys_nodes(P, f, ('fcntl', 'fcntl64', 'ioctl')):
      n += 1
      a = x.get('a') or []
      if len(a) < 2 or id(x) in covered:
        continue
      c = const_of(a[1])
      if x.get('n') == 'ioctl' or callee(x)['n'] == 'ioctl':
        ctx.ob('kept', 'marks are not removed', c != FIONCLEX, '%s line %s' % (P.where(f), x.get('l')), 'the mark of a descriptor is removed')
      elif c == F_SETFD:
        v = const_of(a[2]) if len(a) > 2 else 0
        ctx.ob('kept', 'marks are not removed', v is None or bool(v & 1), '%s line %s' % (P.where(f), x.get('l')), 'the mark of a descriptor is removed')
    for x in sys_nodes(P, f, ('socket', 'accept', 'accept4', 'dup', 'dup3', 'socketpair')):
      n += 1
      if id(x) in covered:
        continue
      a = x.get('a') or []
      i = FLAG_ARG.get(callee(x)['n'])
      v = const_of(a[i]) if i is not None and len(a) > i else None
      if v is None or not v & SOCK_CLOEXEC:
        raise AnalysisError('opening call not understood: %s line %s' % (P.where(f), x.get('l')))
  ctx.need('examined calls', n + len(covered), 3)


def const_of(n):
  while n is not None:
    if 'cv' in n:
      return n['cv']
    if n['k'] in ('Int', 'Enum'):
      return n['v']
    n = n.get('a') if n['k'] in ('Cast', 'Paren') and isinstance(n.get('a'), dict) else None

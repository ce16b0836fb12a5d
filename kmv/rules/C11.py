"""C11: opened devices and sockets are closed exactly once, grabs are undone."""
from .common import *
from .C26 import subterms, impl_of, device_list, virtual, is_vector, root, MAPS, DEVICES

TECHNIQUE = 'typestate and ownership analysis of descriptors by abstract interpretation over the clang AST (every opening call, every failure path, owning classes)'
NOTE = ('Each opening call is examined in the function or class owning the descriptor, with every outcome of the system calls; owning classes are examined per method '
  'and special member. The directory search is examined for one entry and otherwise abstracted. Descriptors received from the Wayland compositor are not examined.')

OPEN = ('open', 'open64', 'openat', 'dup', 'dup2', 'dup3', 'inotify_init', 'inotify_init1', 'socket', 'accept', 'accept4', 'eventfd', 'timerfd_create', 'signalfd', 'epoll_create', 'epoll_create1')
FOPEN = ('fopen', 'fopen64', 'popen', 'fdopen', 'opendir', 'tmpfile')
CLOSE = ('close', 'fclose', 'pclose', 'closedir')
CONTAINERS = ('std::vector', 'std::optional', 'std::pair')
EVIOCGRAB = 0x40044590
NAMES = OPEN + FOPEN + CLOSE


def sysname(ev, names):
  return ev.name in names and not ev.cls and not ev.targets


def sys_nodes(P, f, names):
  """calls of system functions in f"""
  out = []
  for n in P.nodes(f):
    if n['k'] == 'Call':
      c = callee(n)
      if c is not None and c['n'] in names and not c.get('cls') and c.get('id') not in P.funcs:
        out.append(n)
  return out


def check(ctx):
  ctx.rule('owner', 'an object owning a descriptor closes it exactly once: on destruction or when it gives it up, and no two objects hold the same descriptor')
  ctx.rule('paths', 'a descriptor opened by a function is closed exactly once, returned or given to an owner on every path, and not used after it was closed')
  ctx.rule('copies', 'objects which close a descriptor on destruction are not copied')
  ctx.rule('grabbed', 'a device removed from the grabbed devices is closed exactly once, one that stays is not closed; only valid descriptors are recorded')
  ctx.rule('listening', 'a listening socket is not replaced before it was closed')
  covered = set()
  P = load('keymapperd')
  owners(ctx, P, 'Connection', covered)
  host(ctx, P, covered)
  owners(ctx, P, virtual(P)[3], covered)
  copies(ctx, P, virtual(P)[3])
  creating(ctx, P, covered)
  searching(ctx, P, covered)
  removing(ctx, P)
  ending(ctx, P)
  n = rest(ctx, P, covered)
  listening(ctx, P, 'ServerState')
  P = load('keymapper')
  n += rest(ctx, P, covered)
  listening(ctx, P, 'ClientState')
  n += rest(ctx, load('keymapperctl'), covered)
  ctx.need('examined opening calls', len(covered), 7)


# ------------------------------------------------------------------ descriptors

class Fds:
  """mon: (open descriptors, closed descriptors, given to owners, extra)"""
  def __init__(self, ctx, P, covered, rule='paths', limit=3):
    self.ctx, self.P, self.covered, self.rule, self.limit = ctx, P, covered, rule, limit
    self.hook = None
    self.opened = 0

  @staticmethod
  def initial(open=(), extra=()):
    return (frozenset(open), frozenset(), frozenset(), extra)

  def on_call(self, I, st, ev):
    ctx = self.ctx
    if self.hook:
      r = self.hook(I, st, ev)
      if r is not None:
        return r
    if ev.args and not sysname(ev, CLOSE) and ev.cls not in CONTAINERS and ev.name not in ('exchange', 'swap', 'move', 'forward_as_tuple'):
      for a in ev.args:
        v = I.rv(st, a)
        if v in st.mon[1]:
          ctx.ob(self.rule, 'not used after closing', False, at(I, ev.node), 'a descriptor is used after it was closed')
    if sysname(ev, OPEN + FOPEN):
      where = at(I, ev.node)
      self.covered.add(where.split(' ')[0])
      op, cl, own, x = st.mon
      k = 0
      fd = mk('PARAM', 'descriptor', where, k)
      while fd in op | cl | own:
        k += 1
        fd = mk('PARAM', 'descriptor', where, k)
      if k >= self.limit:
        return []
      I.tr[fd] = ((3, 1023),)
      s = st.copy()
      st.mon = (op | {fd}, cl, own, x)
      self.opened += 1
      return [(st, fd), (s, C0 if ev.name in FOPEN else C(-1))]
    if sysname(ev, CLOSE):
      fd = I.rv(st, ev.args[0])
      op, cl, own, x = st.mon
      if fd in op:
        st.mon = (op - {fd}, cl | {fd}, own, x)
      elif fd in cl:
        ctx.ob(self.rule, 'closed once', False, at(I, ev.node), 'a descriptor is closed twice')
      elif fd in own:
        ctx.ob(self.rule, 'closed by its owner only', False, at(I, ev.node), 'a descriptor is closed although an object owns it')
      elif not (isc(fd) and fd.a[0] in (-1, 0)) and I.truth(st, cmp('<', fd, C0)) is not True:
        raise AnalysisError('closed descriptor not understood: %s (%s)' % (at(I, ev.node), fd))
      return [(st, C0)]

  def give(self, st, v):
    fds = {x for x in subterms(v) if x in st.mon[0]}
    op, cl, own, x = st.mon
    if any(x in cl for x in subterms(v)):
      self.ctx.ob(self.rule, 'not used after closing', False, self.P.where(self.fn) if getattr(self, 'fn', None) else '', 'a closed descriptor is given to an owner')
    st.mon = (op - fds, cl, own | fds, x)
    return fds

  def held(self, I, st, obj, v=None):
    """descriptors held by fields of an object or returned"""
    out = []
    for k, x in st.env.items():
      if k.k == 'F' and (k is obj or under(k, obj)) or k is obj:
        out += [y for y in subterms(x) if y.k == 'PARAM' and y.a[0] == 'descriptor']
    if v is not None:
      out += [y for y in subterms(v) if y.k == 'PARAM' and y.a[0] == 'descriptor']
    return out

  def interp(self, on_leave, inline=None, **kw):
    kw.setdefault('cap', 60)
    kw.setdefault('retcap', 60)
    names = NAMES

    def inl(I, f):
      r = inline(I, f) if inline else None
      if r is not None:
        return r
      if not f.get('cls') and not f.get('lambda') and not any(sys_nodes(self.P, g, names) for g in self.P.reach(f).values()):
        return False
    return Interp(self.P, Spec(interest=lambda n: node_calls(n, *names), on_call=self.on_call, on_leave=on_leave, inline=inl, **kw))


def descriptor_fields(P, cls):
  r = P.records.get(cls)
  if not r:
    raise AnalysisError('class %s not found' % cls)
  return [cls + '::' + f['n'] for f in r['fields'] if (f['t'] or {}).get('bits') == 32 and (f['t'] or {}).get('signed') and not (f['t'] or {}).get('enum')]


def closing(P, f):
  return any(sys_nodes(P, g, CLOSE) for g in P.reach(f).values())


def owners(ctx, P, cls, covered):
  """special members and closing methods of a class owning a single descriptor"""
  fs = descriptor_fields(P, cls)
  if len(fs) != 1:
    raise AnalysisError('descriptor of %s not found' % cls)
  field = fs[0]
  todo = [f for f in P.funcs.values() if f.get('cls') == cls and f.get('body') and
    (f.get('dtor') or f.get('ctor') or f['n'] == 'operator=' or closing(P, f) or field in P.mods(f))]
  todo = [f for f in todo if not f.get('tmpl')]
  if not [f for f in todo if f.get('dtor')]:
    raise AnalysisError('%s does not close its descriptor' % cls)
  n = 0
  A, B = (mk('PARAM', 'descriptor', x, 0) for x in ('own', 'other'))
  obj, oth = mk('OBJ', cls, 'this'), mk('OBJ', cls, 'other')
  for fn in todo:
    ps = fn.get('params') or fn.get('p') or []
    takes = [i for i, p in enumerate(ps) if bare(((p.get('t') or {}).get('rec') or '')) == cls or (p.get('t') or {}).get('rec') == cls]
    takefd = [i for i, p in enumerate(ps) if (p.get('t') or {}).get('bits') == 32 and not (p.get('t') or {}).get('ref')] if fn.get('ctor') else []
    for own in ((None,) if fn.get('ctor') else (A, C(-1))):
      for other in ((B, C(-1)) if takes or takefd else (None,)):
        D = Fds(ctx, P, covered, 'owner')
        ends = [0]

        def on_leave(I, st, f, v, node):
          if f['id'] != fn['id']:
            return
          ends[0] += 1
          op, cl, own_, x = st.mon
          mine = D.held(I, st, obj)
          theirs = D.held(I, st, oth)
          if fn.get('dtor'):
            ctx.ob('owner', '%s closes on destruction' % cls, not op, P.where(fn), 'an object is destroyed without closing its descriptor')
            return
          for d in op:
            k = mine.count(d) + theirs.count(d)
            if fn.get('ctor') and takefd:
              ctx.ob('owner', '%s keeps the descriptor it is given' % cls, k == 1, P.where(fn), 'a descriptor given to an object is not kept')
            else:
              ctx.ob('owner', 'open descriptor is held once', k == 1, P.where(fn), 'an open descriptor is %s' % ('no longer held by any object' if not k else 'held by two objects'))
          for d in cl:
            ctx.ob('owner', 'closed descriptor is not held', d not in mine + theirs, P.where(fn), 'an object still holds a descriptor it has closed')
        I = D.interp(on_leave, inline=lambda I, f: True if f.get('cls') == cls else None)

        def setup(I, st, args):
          I.tr[A] = I.tr[B] = ((3, 1023),)
          if own is not None:
            st.env[F(obj, field)] = own
          if takes:
            st.env[F(oth, field)] = other
            args = list(args)
            args[takes[0]] = mk('LV', oth)
            return args
          if takefd:
            args = list(args)
            args[takefd[0]] = other
            return args
        I.run(fn, Fds.initial([x for x in (own, other) if x in (A, B)]), obj=obj, setup=setup)
        ctx.used(I)
        if not ends[0]:
          raise AnalysisError('no end of %s reached' % fn['q'])
        n += ends[0]
  ctx.need('examined ends of members of %s' % cls.split('::')[-1], n, 4)


def host(ctx, P, covered):
  cls = 'Host'
  fs = descriptor_fields(P, cls)
  if len(fs) != 1:
    raise AnalysisError('listening socket not found')
  field = fs[0]
  obj = mk('OBJ', cls, 'this')
  A = mk('PARAM', 'descriptor', 'own', 0)
  n = opened = 0
  dtors = [f for f in P.funcs.values() if f.get('cls') == cls and f.get('dtor')]
  if len(dtors) != 1:
    raise AnalysisError('the listening socket is not closed on destruction')
  for fn in [P.find1(cls + '::' + m) for m in ('listen', 'accept', 'connect', 'shutdown')] + dtors:
    for own in (A, C(-1)):
      if fn['n'] == 'listen' and own is A:
        # may only be called when not listening, unless it closes the socket itself; callers are examined in `listening`
        continue
      D = Fds(ctx, P, covered)

      def hook(I, st, ev):
        if ev.cls == 'Connection':
          if ev.name == 'Connection':
            vals = [I.rv(st, a) for a in ev.args]
            for v in vals:
              D.give(st, v)
            return None
          if ev.name in ('send', 'read', 'recv'):
            return [(st.copy(), C1), (st, C0)]
        if sysname(ev, ('bind', 'listen', 'connect')):
          for a in ev.args[:1]:
            if I.rv(st, a) in st.mon[1]:
              ctx.ob('paths', 'not used after closing', False, at(I, ev.node), 'a descriptor is used after it was closed')
          return [(st.copy(), C0), (st, C(-1))]
      D.hook = hook
      ends = [0]

      def on_leave(I, st, f, v, node):
        if f['id'] != fn['id']:
          return
        ends[0] += 1
        op, cl, given, x = st.mon
        mine = D.held(I, st, obj)
        if fn.get('dtor') or fn['n'] == 'shutdown':
          ctx.ob('owner', 'the listening socket is closed', not op, P.where(fn), 'the listening socket is not closed')
        for d in op:
          ctx.ob('paths', 'opened sockets are kept, given to a connection or closed', mine.count(d) == 1, P.where(fn), 'an opened socket is neither kept nor closed')
        if not fn.get('dtor'):
          for d in cl:
            ctx.ob('owner', 'closed descriptor is not held', d not in mine, P.where(fn), 'a closed listening socket is still recorded')
      I = D.interp(on_leave, inline=lambda I, f: True if f.get('cls') == cls else False if f.get('cls') == 'Connection' else None, unroll=3)

      def setup(I, st, args):
        I.tr[A] = ((3, 1023),)
        st.env[F(obj, field)] = own
      I.run(fn, Fds.initial([own] if own is A else []), obj=obj, setup=setup)
      ctx.used(I)
      if not ends[0]:
        raise AnalysisError('no end of %s reached' % fn['q'])
      n += ends[0]
      opened += D.opened
  ctx.need('examined ends of members of Host', n, 12)
  ctx.need('opened sockets', opened, 3)


def copies(ctx, P, cls):
  """no object of a class without own copy and move operations is created other than in place"""
  r = P.records[cls]
  special = [f for f in P.funcs.values() if f.get('cls') == cls and not f.get('implicit') and (f.get('ctor') or f['n'] == 'operator=') and
    any((p.get('t') or {}).get('rec') == cls for p in (f.get('params') or f.get('p') or []))]
  n = 0
  for f in P.funcs.values():
    par = {}
    for x in P.nodes(f):
      for c in children(x):
        par[id(c)] = x
    for x in P.nodes(f):
      t = x.get('t') or {}
      if x['k'] == 'Ctor' and t.get('rec') == cls and not t.get('ptr') and not special:
        p = par.get(id(x))
        while p is not None and p['k'] in ('Cast', 'Temp', 'Paren', 'Bind'):
          p = par.get(id(p))
        n += 1
        ctx.ob('copies', 'created in place', p is not None and p['k'] == 'New', P.where(f) + ' line %s' % x.get('l'),
          'a temporary or local object which closes its descriptor is created, its copies would use a closed descriptor')
  ctx.ob('copies', 'objects owning a device are not copied', True, r['q'], '')
  return n


def creating(ctx, P, covered):
  field, impl, lst, dev, fdf, kb = virtual(P)
  obj = mk('OBJ', impl, 'this')
  n = 0
  for name in ('create_keyboard_device', 'update_forward_devices'):
    fn = root(P, impl, name)
    D = Fds(ctx, P, covered)
    D.fn = fn

    def hook(I, st, ev):
      if ev.cls in MAPS and ev.name in ('emplace', 'try_emplace', 'insert', 'insert_or_assign', 'emplace_hint'):
        for a in ev.args:
          v = I.rv(st, a)
          if v.k == 'tie' and isinstance(v.a[0], tuple):
            for x in v.a[0]:
              D.give(st, I.load(st, x))
          D.give(st, v)
      elif ev.name in ('make_unique', 'make_shared') or ev.name == dev.split('::')[-1] and ev.cls == dev:
        for a in ev.args:
          D.give(st, I.rv(st, a))
    D.hook = hook
    ends = [0]

    def on_leave(I, st, f, v, node):
      if f['id'] != fn['id']:
        return
      ends[0] += 1
      ctx.ob('paths', 'created devices are owned or closed', not st.mon[0], P.where(fn), 'a created virtual device is neither owned nor closed')
    I = D.interp(on_leave, inline=lambda I, f: True if f.get('cls') == impl else None)
    I.run(fn, Fds.initial(), obj=obj)
    ctx.used(I)
    ctx.need('opened virtual devices (%s)' % name, D.opened, 1)
    n += ends[0]
  ctx.need('ends of creating virtual devices', n, 4)


def searching(ctx, P, covered):
  """one entry of the directory: what was opened for it is closed, or recorded as grabbed device"""
  field, impl, lst, dev = device_list(P)
  fn = root(P, impl, 'update_devices')
  obj = mk('OBJ', impl, 'this')
  L = F(obj, lst)
  flags = [impl + '::' + f['n'] for f in P.records[impl]['fields'] if (f['t'] or {}).get('bool')]
  mon_fields = [impl + '::' + f['n'] for f in P.records[impl]['fields'] if (f['t'] or {}).get('bits') == 32 and (f['t'] or {}).get('signed')]
  A = mk('PARAM', 'descriptor', 'own', 0)
  if len(mon_fields) != 1:
    raise AnalysisError('device monitor not found')
  D = Fds(ctx, P, covered, limit=3)
  got = {'entries': 0, 'grabbed': 0, 'ends': 0}

  def settled(I, st, where):
    op, cl, own, (k, grabbed) = st.mon
    l = I.load_whole(st, L)
    monitor = I.load(st, F(obj, mon_fields[0]))
    stored = [x for x in subterms(l) if x.k == 'PARAM' and x.a[0] == 'descriptor']
    for d in op:
      if d is monitor:
        continue
      ctx.ob('paths', 'devices opened by the search are closed or recorded', d in stored, where, 'a device opened by the search is neither closed nor recorded as grabbed')
    for d in cl:
      ctx.ob('grabbed', 'recorded devices are open', d not in stored and d is not monitor, where, 'a closed descriptor is recorded')
    if l.k == 'list':
      for x in l.a:
        v = I.fld(x, dev + '::fd')
        got['grabbed'] += 1
        ctx.ob('grabbed', 'recorded descriptors are valid', I.truth(st, cmp('<', v, C0)) is False, where, 'an invalid descriptor is recorded as grabbed device')
      ctx.ob('grabbed', 'each device is recorded with its own descriptor', len(stored) == len(set(stored)), where, 'a descriptor is recorded twice')
    for d in grabbed:
      if isinstance(d, str):
        continue
      ctx.ob('grabbed', 'grabbed devices are recorded', bool(stored) or d in cl, where, 'a device stays grabbed without being recorded')

  def hook(I, st, ev):
    op, cl, own, (k, grabbed) = st.mon
    if ev.name == 'directory_iterator':
      if k == 0:
        st.mon = (op, cl, own, (1, grabbed))
        return [(st, fresh('directory'))]
      return [(st, fresh('other'))]
    if ev.name == 'path' and ev.cls == 'std::filesystem::directory_entry' and ev.node.get('_f') != 0:
      if k == 1:
        st.mon = (op, cl, own, (2, grabbed))
      elif k == 2:
        got['entries'] += 1
        settled(I, st, P.where(fn))
        return []
    if ev.obj is L and ev.name in ('push_back', 'emplace_back', 'insert', 'emplace', 'erase', 'pop_back'):
      st.mon = (op, cl, own, (k, grabbed | {ev.name + ' %d' % sum(1 for x in grabbed if isinstance(x, str))}))
      now = I.load_whole(st, L)
      v = I.rv(st, ev.args[0]) if ev.name == 'push_back' else ZERO
      if v.k == 'rec' and now.k == 'list':
        # only the descriptor matters
        I.write(st, L, mk('list', *(now.a + (mk('rec', mk('PARAM', 'device', 'found', len(now.a)), ((dev + '::fd', I.fld(v, dev + '::fd')),)),))), ev.node)
        return [(st, VOID)]
    if ev.name == 'is_character_file':
      return [(st, C1)]
    if ev.name == 'sscanf':
      return [(st, C1)]
    if sysname(ev, ('ioctl',)) and len(ev.args) >= 2:
      r = I.rv(st, ev.args[1])
      if isc(r) and r.a[0] & 0xffffffff == EVIOCGRAB and len(ev.args) == 3:
        d, x = I.rv(st, ev.args[0]), I.rv(st, ev.args[2])
        if I.truth(st, x) is not False and d in op:
          s = st.copy()
          s.mon = (op, cl, own, (k, grabbed | {d}))
          return [(s, C0), (st, C(-1))]
  D.hook = hook

  def on_leave(I, st, f, v, node):
    if f['id'] == fn['id'] and st.mon[3][0] == 2:
      got['ends'] += 1
      settled(I, st, P.where(fn))
  for monitor in (A, C(-1)):
    I = D.interp(on_leave, inline=lambda I, f: True if f.get('cls') == impl else None, cap=12, retcap=12, unroll=2)

    def setup(I, st, args):
      I.tr[A] = ((3, 1023),)
      st.env[L] = mk('list')
      st.env[F(obj, mon_fields[0])] = monitor
      for f in flags:
        st.env[F(obj, f)] = C1
    I.run(fn, Fds.initial([A] if monitor is A else [], (0, frozenset())), obj=obj, setup=setup)
    ctx.used(I)
  ctx.need('ends of the search for an entry', got['entries'], 2)
  ctx.need('recorded devices', got['grabbed'], 1)
  ctx.need('opened devices', D.opened, 3)


def listed(P, impl, lst, dev, obj):
  fds = [mk('PARAM', 'descriptor', 'of device', i) for i in range(DEVICES)]
  l = mk('list', *[mk('rec', mk('PARAM', 'device', 'grabbed', i), ((dev + '::fd', fds[i]),)) for i in range(DEVICES)])
  return fds, l


def removing(ctx, P):
  """the search is abstracted: it leaves some devices marked as gone"""
  field, impl, lst, dev = device_list(P)
  fn = root(P, impl, 'update_devices')
  obj = mk('OBJ', impl, 'this')
  L = F(obj, lst)
  fds, l = listed(P, impl, lst, dev, obj)
  flags = [dev + '::' + f['n'] for f in P.records[dev]['fields'] if (f['t'] or {}).get('bool')]
  bools = [impl + '::' + f['n'] for f in P.records[impl]['fields'] if (f['t'] or {}).get('bool')]
  D = Fds(ctx, P, set(), 'grabbed')
  got = {'ends': 0, 'removed': 0}

  def hook(I, st, ev):
    op, cl, own, x = st.mon
    if ev.name == 'directory_iterator' and not x:
      st.mon = (op, cl, own, 1)
      for i in range(DEVICES):
        for f in flags:
          I.write(st, F(E(L, C(i)), f), mk('PARAM', f, 'of device', i), ev.node)
      return [(st, fresh('directory'))]
    if ev.name in ('path', 'is_character_file') and ev.cls == 'std::filesystem::directory_entry':
      return []
    if sysname(ev, ('inotify_init', 'inotify_init1')):
      return [(st, C(-1))]
  D.hook = hook

  def on_leave(I, st, f, v, node):
    if f['id'] != fn['id'] or not st.mon[3]:
      return
    got['ends'] += 1
    now = I.load_whole(st, L)
    if now is ZERO:
      now = mk('list')
    if now.k != 'list':
      raise AnalysisError('grabbed devices not understood: %s' % now)
    have = [I.fld(x, dev + '::fd') for x in now.a]
    for d in fds:
      if d in have:
        ctx.ob('grabbed', 'remaining devices stay open', d in st.mon[0], P.where(fn), 'a device is closed but still recorded as grabbed')
      else:
        got['removed'] += 1
        ctx.ob('grabbed', 'removed devices are closed', d in st.mon[1], P.where(fn), 'a device is no longer recorded as grabbed but not closed')
  I = D.interp(on_leave, inline=lambda I, f: True if f.get('cls') == impl else None, cap=12, retcap=12, unroll=DEVICES + 2)

  def setup(I, st, args):
    for d in fds:
      I.tr[d] = ((3, 1023),)
    st.env[L] = l
    for f in P.records[impl]['fields']:
      if (f['t'] or {}).get('bits') == 32 and (f['t'] or {}).get('signed'):
        st.env[F(obj, impl + '::' + f['n'])] = C(-1)
    for f in bools:
      st.env[F(obj, f)] = C1
  I.run(fn, Fds.initial(fds, 0), obj=obj, setup=setup)
  ctx.used(I)
  ctx.need('ends of removing devices', got['ends'], 8)
  ctx.need('removed devices', got['removed'], 8)


def ending(ctx, P):
  field, impl, lst, dev = device_list(P)
  obj = mk('OBJ', impl, 'this')
  fds, l = listed(P, impl, lst, dev, obj)
  A = mk('PARAM', 'descriptor', 'own', 0)
  fn = [f for f in P.funcs.values() if f.get('cls') == impl and f.get('dtor') and f.get('body')]
  if len(fn) != 1:
    raise AnalysisError('destruction of the grabbed devices not found')
  fn = fn[0]
  mon_fields = [impl + '::' + f['n'] for f in P.records[impl]['fields'] if (f['t'] or {}).get('bits') == 32 and (f['t'] or {}).get('signed')]
  ends = [0]
  for monitor, some in ((A, True), (C(-1), True), (A, False)):
    D = Fds(ctx, P, set(), 'grabbed')

    def on_leave(I, st, f, v, node):
      if f['id'] == fn['id']:
        ends[0] += 1
        ctx.ob('grabbed', 'everything is closed at the end', not st.mon[0], P.where(fn), 'grabbed devices or the device monitor are not closed at the end')
    I = D.interp(on_leave, inline=lambda I, f: True if f.get('cls') == impl else None)

    def setup(I, st, args):
      for d in fds + [A]:
        I.tr[d] = ((3, 1023),)
      st.env[F(obj, lst)] = l if some else mk('list')
      for f in mon_fields:
        st.env[F(obj, f)] = monitor
    I.run(fn, Fds.initial((fds if some else []) + ([A] if monitor is A else [])), obj=obj, setup=setup)
    ctx.used(I)
  ctx.need('ends of destruction', ends[0], 3)


# ------------------------------------------------------------------ the rest

def rest(ctx, P, covered):
  """functions with opening calls which were not examined as part of an owner"""
  n = 0
  for f in sorted(P.funcs.values(), key=lambda f: f['q']):
    if not f.get('body'):
      continue
    sites = sys_nodes(P, f, OPEN + FOPEN)
    todo = [x for x in sites if P.where(f).split(':')[0] + ':%s' % x.get('l') not in covered]
    if not todo:
      continue
    obj = mk('OBJ', f['cls'], 'this') if f.get('cls') else None
    D = Fds(ctx, P, covered)
    ends = [0]

    def on_leave(I, st, g, v, node):
      if g['id'] != f['id']:
        return
      ends[0] += 1
      held = D.held(I, st, obj, v) if obj else [y for y in subterms(v) if y.k == 'PARAM' and y.a[0] == 'descriptor']
      for d in st.mon[0]:
        ctx.ob('paths', 'opened files are closed, returned or kept', d in held, P.where(f), 'an opened file is neither closed nor kept')
    I = D.interp(on_leave)
    I.run(f, Fds.initial(), obj=obj)
    ctx.used(I)
    n += D.opened
  return n


def listening(ctx, P, cls):
  """typestate of the listening socket in the main function"""
  fn = P.find1('main')
  got = {'listen': 0, 'ends': 0}
  states = [c for c in P.records if is_a(P, c, cls)]

  def reaches_host(f):
    return any(g.get('cls') == 'Host' and g['n'] in ('listen', 'shutdown') for g in P.reach(f).values())

  def closes_first(f):
    """does listening close the socket itself?"""
    return False

  def on_call(I, st, ev):
    if ev.cls == 'Host':
      if ev.name == 'listen':
        got['listen'] += 1
        ctx.ob('listening', 'not listening yet', not st.mon or self_closing, at(I, ev.node), 'the listening socket is replaced without closing it (another call of this function in the same program)')
        if st.mon:
          return []
        s = st.copy()
        st.mon = s.mon = True
        return [(st, C1), (s, C0)]
      if ev.name == 'shutdown':
        st.mon = False
        return [(st, VOID)]
      return [(st, fresh(ev.name))]
    if ev.targets and ev.cls in states and not any(reaches_host(t) for t in ev.targets):
      return [(st.copy(), C1), (st, C0)] if ((ev.node.get('t') or {}).get('bool')) else [(st, fresh(ev.name))]
  # does the function close a socket it replaces?
  self_closing = replaces(ctx, P)
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'listen', 'shutdown'), on_call=on_call, cap=6, retcap=6,
    inline=lambda I, f: None))
  I.run(fn, False)
  ctx.used(I)
  ctx.need('examined calls starting to listen (%s)' % cls, got['listen'], 1)


def replaces(ctx, P):
  fn = P.find1('Host::listen')
  field = descriptor_fields(P, 'Host')[0]
  obj = mk('OBJ', 'Host', 'this')
  A = mk('PARAM', 'descriptor', 'own', 0)
  from ..report import Ctx
  bad = []

  class Quiet:
    def ob(self, rule, what, ok, *a):
      if not ok:
        bad.append(what)
  D = Fds(Quiet(), P, set())

  def on_leave(I, st, f, v, node):
    if f['id'] == fn['id'] and A in st.mon[0] and A not in D.held(I, st, obj):
      bad.append('replaced')
  I = D.interp(on_leave, inline=lambda I, f: True if f.get('cls') == 'Host' else None)

  def setup(I, st, args):
    I.tr[A] = ((3, 1023),)
    st.env[F(obj, field)] = A
  I.run(fn, Fds.initial([A]), obj=obj, setup=setup)
  return not bad

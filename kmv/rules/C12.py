"""C12: an invalid configuration never replaces the working one."""
from .common import *

TECHNIQUE = 'abstract interpretation of the client over the clang AST (typestate: identity of parsed, used and sent configuration)'
NOTE = ('Every handler of the client and its main function with every outcome of opening and parsing the file, of sending, of the focused window and of '
  'the context filters; configurations are opaque with two contexts and two actions each, up to two recently loaded files.')

ACTIONS = 2
NOTHING = mk('PARAM', 'nothing', 'sent', 0)
HANDLERS = ('ServerPort::MessageHandler', 'ControlPort::MessageHandler', 'TrayIcon::Handler')


def walk_terms(t):
  yield t
  for a in t.a:
    if isinstance(a, T):
      yield from walk_terms(a)
    elif isinstance(a, tuple):
      for x in a:
        for y in x if isinstance(x, tuple) else (x,):
          if isinstance(y, T):
            yield from walk_terms(y)


class Mon:
  """sent: configuration the daemon has; due: contexts not sent since; lost: sending failed; failed: reading the file failed;
  reported: the failure was reported; matches: answers of the filters for the current window; parses: configurations parsed"""
  names = ('sent', 'due', 'lost', 'failed', 'reported', 'matches', 'parses', 'waits')

  def __init__(self, *a):
    self.v = a

  def __hash__(self):
    return hash(self.v)

  def __eq__(self, o):
    return isinstance(o, Mon) and self.v == o.v

  def __getattr__(self, n):
    return self.v[Mon.names.index(n)]

  def set(self, **kw):
    return Mon(*[kw.get(n, x) for n, x in zip(Mon.names, self.v)])

  def __repr__(self):
    return str(dict(zip(Mon.names, self.v)))


def check(ctx):
  P = load('keymapper')
  ctx.rule('kept', 'when reading or parsing the file fails the configuration in use is the one before, the failure is reported and no configuration is sent')
  ctx.rule('parsed', 'only a completely parsed configuration is sent')
  ctx.rule('same', 'whenever the client waits for or handles messages, the configuration in use is the last one sent')
  ctx.rule('contexts', 'after sending a configuration the contexts matching the current window are sent; sent contexts are the ones of the sent configuration')
  ctx.rule('actions', 'a requested action is looked up in the configuration in use')
  M = Model(ctx, P)
  M.contracts()
  M.polling()
  M.handlers()
  M.main()
  M.actions()


class Model:
  def __init__(self, ctx, P):
    self.ctx, self.P = ctx, P
    cls = [q for q, r in P.records.items() if is_a(P, q, 'ClientState') and q != 'ClientState']
    g = [g for g in P.globals.values() if (g.get('t') or {}).get('rec') in cls]
    if len(g) != 1:
      raise AnalysisError('client state not identified')
    self.cls = g[0]['t']['rec']
    self.obj = mk('G', g[0]['u'])
    self.file = self.field('ClientState', lambda t: t.get('rec') == 'ConfigFile')
    self.recent = self.field('ClientState', lambda t: bare(t.get('rec') or '') == 'std::vector' and 'ConfigFile' in (t.get('ta') or []))
    self.config = self.field('ConfigFile', lambda t: t.get('rec') == 'Config')
    self.name = self.field('ConfigFile', lambda t: t.get('rec') == 'std::filesystem::path')
    self.lists = ['ClientState::' + f['n'] for f in P.records['ClientState']['fields'] if bare((f['t'] or {}).get('rec') or '') == 'std::vector' and
      'ClientState::' + f['n'] != self.recent]
    self.ended = 0
    self.sends = 0
    self.ncontexts = 2

  def field(self, cls, pred):
    fs = [cls + '::' + f['n'] for f in self.P.records[cls]['fields'] if pred(f['t'] or {})]
    if len(fs) != 1:
      raise AnalysisError('member of %s not identified' % cls)
    return fs[0]

  # -------------------------------------------------------------- configurations

  def make(self, name):
    items = lambda what, n: mk('list', *[mk('PARAM', what, name, i) for i in range(n)])
    return mk('rec', mk('PARAM', 'config', name, 0), (('Config::contexts', items('context', self.ncontexts)), ('Config::actions', items('action', ACTIONS))))

  def used(self, I, st):
    return I.load_whole(st, F(F(self.obj, self.file), self.config))

  def contexts_of(self, config):
    return [mk('PARAM', 'context', config.a[0].a[1], i) for i in range(self.ncontexts)] if config.k == 'rec' and config.a[0].k == 'PARAM' else None

  def default(self, config):
    """a configuration which was never loaded"""
    return config is ZERO or config.k == 'rec' and config.a[0].k in ('zero', 'undef') and all(v is ZERO or v is C0 or v.k in ('list', 'rec') and not any(x.k == 'PARAM' for x in walk_terms(v)) for _, v in config.a[1])

  # -------------------------------------------------------------- events

  def on_call(self, I, st, ev):
    ctx, m = self.ctx, st.mon
    if ev.cls == 'ParseConfig' and ev.name == 'operator()':
      s = st.copy()
      s.mon = m.set(failed=True, reported=False)
      I.throws.append((s, 'std::runtime_error'))
      if m.parses == 2:
        return []
      cfg = self.make('parsed%d' % m.parses)
      st.mon = m.set(parses=m.parses + 1, failed=False, reported=False)
      return [(st, cfg)]
    if ev.name in ('good', 'is_open', 'operator bool', 'operator!', 'fail') and ('stream' in (ev.cls or '') or 'basic_ios' in (ev.cls or '')):
      bad = st.copy()
      bad.mon = m.set(failed=True, reported=False)
      pos = ev.name in ('good', 'is_open', 'operator bool')
      return [(st, C1 if pos else C0), (bad, C0 if pos else C1)]
    if ev.name in ('error', 'message') and not ev.cls:
      st.mon = m.set(reported=True)
      return [(st, VOID)]
    if ev.name in ('verbose', 'notify') and not ev.cls:
      return [(st, VOID)]
    if ev.name == 'empty' and (ev.cls or '').endswith('filesystem::path') and isinstance(ev.obj, T):
      v = I.load_whole(st, ev.obj)
      if v.k == 'PARAM':
        return [(st, C0)]
      if v is ZERO or v.k in ('rec', 's'):
        return [(st, C1)]
    if ev.cls == 'ServerPort' and ev.name == 'send_config':
      self.sends += 1
      cfg = I.load_whole(st, ev.args[0].a[0]) if ev.args[0].k == 'LV' else I.rv(st, ev.args[0])
      ctx.ob('parsed', 'the sent configuration is complete', cfg is ZERO or cfg in self.known(m), at(I, ev.node), 'a configuration is sent which was not parsed completely')
      ctx.ob('kept', 'nothing is sent after a failure', not m.failed or m.sent in (None, NOTHING), at(I, ev.node), 'a configuration is sent although reading the file failed')
      s = st.copy()
      s.mon = m.set(lost=True)
      cs = self.contexts_of(cfg) or ()
      st.mon = m.set(sent=cfg, due=True, matches=frozenset(x for x in m.matches if x[0] in cs))
      return [(st, C1), (s, C0)]
    if ev.cls == 'ServerPort' and ev.name == 'send_active_contexts':
      self.contexts(I, st, ev)
      s = st.copy()
      s.mon = m.set(lost=True)
      st.mon = m.set(due=False)
      return [(st, C1), (s, C0)]
    if ev.cls == 'FocusedWindow' and ev.name == 'update':
      s = st.copy()
      s.mon = m.set(matches=frozenset())
      return [(s, C1), (st, C0)]
    if ev.name == 'matches' and ev.obj is not None and isinstance(ev.obj, T):
      e = I.load_whole(st, ev.obj)
      if e.k == 'PARAM' and e.a[0] == 'context':
        known = dict(m.matches).get(e)
        if known is not None:
          return [(st, C(int(known)))]
        s = st.copy()
        s.mon = m.set(matches=m.matches | {(e, False)})
        st.mon = m.set(matches=m.matches | {(e, True)})
        return [(st, C1), (s, C0)]
    if ev.cls == 'TrayIcon':
      self.waiting(I, st, at(I, ev.node))
      return [(st, fresh('tray'))]
    if ev.cls in ('ServerPort', 'ControlPort') and ev.name == 'read_messages':
      self.waiting(I, st, at(I, ev.node))
      if ev.cls == 'ControlPort':
        return [(st, VOID)]
      if m.waits == 2:
        return []
      s = st.copy()
      s.mon = m.set(lost=True, waits=m.waits + 1)
      st.mon = m.set(waits=m.waits + 1)
      return [(st, C1), (s, C0)]
    if ev.cls == 'ServerPort' and ev.name == 'connect':
      if m.parses > 1:
        return []
      s = st.copy()
      st.mon = m.set(sent=NOTHING, due=False, lost=False, matches=frozenset())
      return [(st, C1), (s, C0)]
    if ev.name in ('execute_terminal_command', 'show_notification', 'fork', 'interpret_commandline') and not ev.cls and not ev.name == 'interpret_commandline':
      return [(st, fresh('result'))]

  def known(self, m):
    return [self.make(n) for n in ['initial', 'recent0', 'recent1'] + ['parsed%d' % i for i in range(m.parses)]]

  def contexts(self, I, st, ev):
    l = I.load_whole(st, ev.args[0].a[0]) if ev.args[0].k == 'LV' else I.rv(st, ev.args[0])
    m = st.mon
    if m.lost:
      return
    active = I.truth(st, I.load(st, F(self.obj, self.active))) if self.active else True
    have = tuple(l.a) if l.k == 'list' else () if l is ZERO else None
    if have is None:
      raise AnalysisError('sent contexts not understood: %s' % l)
    cs = self.contexts_of(m.sent) if m.sent is not None else None
    ok = True
    if active is False:
      ok = not have
    elif have:
      ok = cs is not None and have == tuple(C(i) for i, c in enumerate(cs) if dict(m.matches).get(c)) and all(c in dict(m.matches) for c in cs)
    elif cs is not None:
      ok = all(dict(m.matches).get(c) is False for c in cs)
    self.ctx.ob('contexts', 'sent contexts are the matching ones of the sent configuration', ok, at(I, ev.node),
      'contexts are sent which are not the matching ones of the configuration the daemon uses')

  def waiting(self, I, st, where):
    m = st.mon
    if m.lost or m.sent is None:
      return
    self.ended += 1
    self.ctx.ob('same', 'the used configuration is the sent one', self.used(I, st) is m.sent or self.default(self.used(I, st)) and self.default(m.sent), where,
      'the configuration in use is not the one the daemon has')
    active = I.truth(st, I.load(st, F(self.obj, self.active)))
    self.ctx.ob('contexts', 'contexts follow the configuration', not m.due or active is False, where, 'the active contexts are not sent after the configuration')
    self.ctx.ob('kept', 'failures are reported', not m.failed or m.reported, where, 'reading the configuration fails without a report')

  # -------------------------------------------------------------- roots

  def interp(self, on_leave=None, cap=3000):
    P = self.P
    act = [f['n'] for f in P.records['ClientState']['fields'] if (f['t'] or {}).get('bool')]
    if len(act) != 1:
      raise AnalysisError('activation of client not identified')
    self.active = 'ClientState::' + act[0]
    own = lambda f: f.get('cls') in ('ClientState', self.cls, 'ConfigFile')
    return Interp(P, Spec(interest=lambda n: node_calls(n, 'send_config', 'send_active_contexts', 'matches', 'error', 'read_messages', 'connect') or
      n['k'] == 'Call' and (callee(n) or {}).get('cls') == 'ParseConfig', on_call=self.on_call, on_leave=on_leave,
      inline=lambda I, f: True if own(f) else None, cap=cap, retcap=cap, unroll=4))

  def setup(self, loaded, active, recent, matches):
    def setup(I, st, args):
      o = self.obj
      f = F(o, self.file)
      if loaded:
        st.env[F(f, self.config)] = self.make('initial')
        st.env[F(f, self.name)] = mk('PARAM', 'path', 'initial', 0)
      else:
        st.env[F(f, self.config)] = ZERO
        st.env[F(f, self.name)] = ZERO
      rec = [mk('rec', mk('PARAM', 'file', 'recent%d' % i, 0), ((self.config, self.make('recent%d' % i)), (self.name, mk('PARAM', 'path', 'recent%d' % i, 0)))) for i in range(recent)]
      st.env[F(o, self.recent)] = mk('list', *rec)
      st.env[F(o, self.active)] = C(int(active))
      now = mk('list', *[C(i) for i, b in enumerate(matches) if b]) if active and loaded else mk('list')
      for l in self.lists:
        st.env[F(o, l)] = now
    return setup

  def initial(self, loaded, active, matches):
    ms = frozenset((mk('PARAM', 'context', 'initial', i), b) for i, b in enumerate(matches)) if loaded else frozenset()
    return Mon(self.make('initial') if loaded else ZERO, False, False, False, False, ms, 0, 0)

  def handlers(self):
    P, ctx = self.P, self.ctx
    todo = []
    for h in HANDLERS:
      r = P.records.get(h)
      if not r:
        raise AnalysisError('interface %s not found' % h)
      for m in r['methods']:
        if m.get('virt') or True:
          todo += [f for f in impls(P, h + '::' + m['n']) if f.get('cls') in ('ClientState', self.cls) and f.get('body') and f not in todo]
    todo = [f for f in todo if not f.get('dtor')]
    ctx.need('handlers of the client', len(todo), 12)
    for fn in todo:
      for loaded, active, recent in ((True, True, 2), (True, True, 0), (True, False, 1), (False, True, 0)):
        def on_leave(I, st, f, v, node):
          if f['id'] == fn['id']:
            self.waiting(I, st, P.where(fn))
        I = self.interp(on_leave)
        I.run(fn, self.initial(loaded, active, (True, False)), obj=self.obj, setup=self.setup(loaded, active, recent, (True, False)))
        ctx.used(I)
    ctx.need('examined ends of handlers', self.ended, 50)

  def contracts(self):
    """loading and updating, on which the examination of the main function relies"""
    P, ctx = self.P, self.ctx
    for name in ('load_config', 'update_config'):
      fn = P.find1('ClientState::' + name)
      for loaded, recent in ((True, 0), (True, 2), (False, 0)):
        results = set()

        def on_leave(I, st, f, v, node):
          if f['id'] != fn['id']:
            return
          t, m, used = I.truth(st, v), st.mon, self.used(I, st)
          if t is None:
            raise AnalysisError('undecided result of loading a configuration')
          results.add(t)
          before = self.make('initial') if loaded else None
          if t:
            ctx.ob('parsed', '%s succeeds with a parsed configuration' % name, m.parses > 0 and used is self.make('parsed%d' % (m.parses - 1)) and not m.failed, P.where(fn),
              'success is reported although the configuration in use is not the one just parsed')
          else:
            ctx.ob('kept', '%s fails without changing the configuration' % name, used is before if loaded else not self.contexts_of(used), P.where(fn),
              'the configuration in use is replaced although loading failed')
            ctx.ob('kept', '%s reports failures' % name, not m.failed or m.reported, P.where(fn), 'reading the configuration fails without a report')
        I = self.interp(on_leave)
        I.run(fn, self.initial(loaded, True, (True, False)), obj=self.obj, setup=self.setup(loaded, True, recent, (True, False)))
        ctx.used(I)
        ctx.need('outcomes of %s' % name, len(results), 2)

  def polling(self):
    """contexts are updated without a change of the configuration"""
    P, ctx = self.P, self.ctx
    upd, send = P.find1('ClientState::update_active_contexts'), P.find1('ClientState::send_active_contexts')
    n = 0
    for active in (True, False):
      for matches in ((True, False), (False, False)):
        I = self.interp()
        r = I.run(upd, self.initial(True, active, matches), obj=self.obj, setup=self.setup(True, active, 0, matches))
        I.stack.append((None, 0, False, None))
        for s, v in r:
          n += 1
          t = I.truth(s, v)
          if t is None:
            raise AnalysisError('undecided result of updating contexts')
          # the list is as due in any case, and was not changed when there is nothing to send
          if not t:
            s.mon = s.mon.set(due=True)
            l = [I.load_whole(s, F(self.obj, l)) for l in self.lists]
            now = mk('list', *[C(i) for i, b in enumerate(matches) if b]) if active else mk('list')
            ctx.ob('contexts', 'changes of active contexts are detected', now in l or now.a == () and ZERO in l, P.where(upd), 'contexts change without being sent')
          stepwise(I, send, [s], self.obj, lambda s: [], ('send', n))
        I.stack.pop()
        ctx.used(I)
    ctx.need('updates of contexts', n, 6)

  def main(self):
    P, ctx = self.P, self.ctx
    before = self.ended
    fn = P.find1('main')

    def on_call(I, st, ev):
      m = st.mon
      if is_a(P, ev.cls, 'ClientState') and ev.name in ('load_config', 'update_config'):
        if m.parses == 2:
          return []
        f = F(self.obj, self.file)
        s = st.copy()
        s.mon = m.set(failed=True, reported=True)
        I.write(st, F(f, self.config), self.make('parsed%d' % m.parses), ev.node)
        st.mon = m.set(parses=m.parses + 1, failed=False, reported=False)
        return [(st, C1), (s, C0)]
      if is_a(P, ev.cls, 'ClientState') and ev.name in ('update_active_contexts', 'clear_active_contexts'):
        return [(st.copy(), C1), (st, C0)]
      if ev.cls == 'ServerPort' and ev.name == 'connect':
        m = st.mon = m.set(failed=False)
      return self.on_call(I, st, ev)
    self.contexts = lambda I, st, ev: None
    I = self.interp(cap=8)
    I.rule._call = on_call
    I.run(fn, self.initial(False, True, ()).set(sent=None), setup=lambda I, st, args: self.setup(False, True, 0, ())(I, st, args))
    del self.contexts
    ctx.used(I)
    ctx.need('examined waits of the main loop', self.ended - before, 4)

  def actions(self):
    P, ctx = self.P, self.ctx
    n = 0
    for fn in impls(P, 'ServerPort::MessageHandler::on_execute_action_message'):
      if not fn.get('body'):
        continue
      for index in range(-1, ACTIONS + 1):
        seen = []

        def on_call(I, st, ev):
          if ev.name == 'execute_terminal_command' and not ev.cls:
            l = ev.args[0].a[0] if ev.args[0].k == 'LV' else None
            v = I.load_whole(st, l) if l is not None else I.rv(st, ev.args[0])
            seen.append(v)
            want = mk('PARAM', 'action', 'initial', index)
            ok = v.k == 'fld' and v.a[0] is want or l is not None and l.k == 'F' and I.load_whole(st, l.a[0]) is want
            ctx.ob('actions', 'action %d' % index, ok and 0 <= index < ACTIONS, at(I, ev.node), 'another command than the requested one of the configuration in use is executed')
            return [(st, C1)]
        I = self.interp()
        I.rule._call = on_call
        I.run(fn, self.initial(True, True, (True, False)), obj=self.obj,
          setup=lambda I, s, a: (self.setup(True, True, 2, (True, False))(I, s, a), [C(index)])[1])
        ctx.used(I)
        n += len(seen)
        if 0 <= index < ACTIONS:
          ctx.ob('actions', 'action %d is executed' % index, bool(seen), P.where(fn), 'a requested action is not executed')
    ctx.need('executed actions', n, 1)

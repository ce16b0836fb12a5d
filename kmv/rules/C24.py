"""C24: mappings are only taken from active contexts and matching devices."""
from .common import *

TECHNIQUE = 'path-sensitive abstract interpretation of the context selection over symbolic contexts, filters and devices, compared with the documented predicate on every path; must-pass-through analysis of the recomputation and provenance analysis of the mappings matched'
NOTE = ('The selection is decided for one and two contexts with arbitrary filters, flags and device bits, the provenance of matched mappings and outputs for arbitrary contexts. '
  'Which contexts the client reports and the regular expressions of the filters are not part of this check.')

S = 'Stage'


def check(ctx):
  ctx.rule('active', 'a reported context is consulted exactly when its modifier filter and its device filter match')
  ctx.rule('modifiers', 'a modifier filter matches exactly when the keys it names are held and the ones it excludes are not')
  ctx.rule('devices', 'a context is marked as matching exactly the devices both of its filters match, and all without a filter')
  ctx.rule('device', 'an event is only applied in a context marked as matching its device')
  ctx.rule('origin', 'matched inputs and outputs are the ones of an active context matching the device')
  ctx.rule('recomputed', 'the active contexts are recomputed whenever what they depend on changes')
  ctx.rule('stages', 'each stage is given its own contexts')
  P = load('keymapperd')
  C24(ctx, P).decide()


class C24:
  def __init__(self, ctx, P):
    self.ctx, self.P = ctx, P
    self.obj = mk('OBJ', S)
    self.contexts = self.field(S, 'm_contexts')
    self.active = self.field(S, 'm_active_contexts')
    self.client = self.field(S, 'm_active_client_contexts')
    self.cls = [r for r in P.records if r.startswith(S + '::') and {'matching_device_bits', 'fallthrough'} <= {f['n'] for f in P.records[r]['fields']}]
    if len(self.cls) != 1:
      raise AnalysisError('contexts not found')
    self.cls = self.cls[0]

  def field(self, cls, name):
    if not any(f['n'] == name for f in self.P.records[cls]['fields']):
      raise AnalysisError('%s::%s not found' % (cls, name))
    return cls + '::' + name

  def decide(self):
    self.selection()
    self.modifiers()
    self.devices()
    self.device()
    self.origin()
    self.outputs()
    self.recomputed()
    self.stages()
    self.server()
    self.passed()

  def named(self, name):
    return [self.cls + '::' + f['n'] for f in self.P.records[self.cls]['fields'] if f['n'] == name][0]

  def filters(self, I, st, ev):
    """filters as unknowns of the context they belong to"""
    if ev.cls == 'Filter' and ev.obj is not None:
      if ev.name.startswith('operator bool'):
        return self.both(I, st, mk('PARAM', 'filter', ev.obj, 0))
      if ev.name == 'matches':
        a = ev.args[0]
        return self.both(I, st, mk('PARAM', 'matches', mk('pair', ev.obj, a.a[0] if a.k == 'LV' else a), 0))
    return None

  def both(self, I, st, t):
    """an unknown condition with each of its values"""
    I.tr[t] = ((0, 1),)
    out = []
    for v in (C1, C0):
      s = st.copy()
      if I.assume(s, eq(t, v), True):
        out.append((s, v))
    return out

  def context(self, I, i, last, inv=None, ft=None):
    v = {}
    for n in ('matching_device_bits', 'invert_modifier_filter', 'fallthrough'):
      t = mk('PARAM', 'context', n, i)
      I.tr[t] = ((0, 1),) if n != 'matching_device_bits' else ((0, (1 << 64) - 1),)
      v[self.named(n)] = C(inv) if inv is not None and n == 'invert_modifier_filter' else C0 if n == 'fallthrough' and last else C(ft) if ft is not None and n == 'fallthrough' else t
    return mk('rec', ZERO, tuple(v.items()))

  # ---------------------------------------------------------------- selection
  def selection(self):
    P, ctx = self.P, self.ctx
    f = method(P, S + '::update_active_contexts')
    mm = method(P, S + '::match_context_modifier_filter')
    cl = F(self.obj, self.contexts)
    calls = [0]
    def on_call(I, st, ev):
      r = self.filters(I, st, ev)
      if r:
        return r
      if ev.cls == S and ev.name == mm['n']:
        a = ev.args[0]
        calls[0] += 1
        return self.both(I, st, mk('PARAM', 'modifiers', a.a[0] if a.k == 'LV' else a, 0))
      if ev.name == 'on_context_active_event':
        return [(st, VOID)]
      return None
    say = lambda v, a, b: a if v else b
    for client in ([], [0], [1], [0, 1]):
      for inv in {(i if 0 in client else 0, j if 1 in client else 0) for i in (0, 1) for j in (0, 1)}:
        for ft in (0, 1) if 0 in client else (0,):
          I = Interp(P, Spec(interest=lambda n: n['k'] == 'Mem' and n.get('q') in (self.active, self.contexts, self.client), on_call=on_call, cap=4000, retcap=4000, unroll=8))

          def setup(I, st, args):
            st.env[cl] = mk('list', self.context(I, 0, False, inv[0], ft), self.context(I, 1, True, inv[1]))
            st.env[F(self.obj, self.client)] = mk('list', *[C(i) for i in client])
            st.env[F(self.obj, self.active)] = mk('list')
            st.env[F(self.obj, S + '::m_prev_active_contexts')] = mk('list')
          done = I.run(f, (), obj=self.obj, setup=setup)
          ctx.used(I)
          if not done:
            raise AnalysisError('no path through ' + f['q'])
          for st, _ in done:
            got = I.load_whole(st, F(self.obj, self.active))
            for s in self.split(I, st, [c for i in client for c in self.conds(i, cl)]):
              want, why = [], []
              for i in client:
                mod, bits, d1, d2 = [I.truth(s, c) for c in self.conds(i, cl)]
                if mod != bool(inv[i]) and ((not d1 and not d2) or bits):
                  j = 1 if i == 0 and ft else i
                  if not want or want[-1] != j:
                    want.append(j)
                why.append('context %d: %smodifier filter %s, %s, %s' % (i, say(inv[i], 'inverted ', ''), say(mod, 'matches', 'does not match'),
                  say(d1 or d2, 'device filter', 'no device filter'), say(bits, 'a device matches', 'no device matches')))
              ok = got.k == 'list' and [t.a[0] if t.k == 'c' else None for t in got.a] == want
              ctx.ob('active', 'contexts %s' % client, ok, P.where(f), 'contexts %s are consulted instead of %s (%s)' % (got, want, '; '.join(why)))
    ctx.need('evaluations of modifier filters', calls[0], 3)

  def conds(self, i, cl):
    e = E(cl, C(i))
    return [eq(mk('PARAM', 'modifiers', F(e, self.named('modifier_filter')), 0), C1),
      neg(eq(mk('PARAM', 'context', 'matching_device_bits', i), C0)), eq(mk('PARAM', 'filter', F(e, self.named('device_filter')), 0), C1),
      eq(mk('PARAM', 'filter', F(e, self.named('device_id_filter')), 0), C1)]

  def split(self, I, st, conds):
    states = [st]
    for c in conds:
      nxt = []
      for s in states:
        for v in (True, False):
          s2 = s.copy()
          if I.assume(s2, c, v):
            nxt.append(s2)
      states = nxt
    return states

  # ---------------------------------------------------------------- modifiers
  def modifiers(self):
    P, ctx = self.P, self.ctx
    f = method(P, S + '::match_context_modifier_filter')
    seq = F(self.obj, self.field(S, 'm_sequence'))
    no = C(enum_val(P, 'KeyState', 'Not'))
    ev = lambda k, s: mk('rec', ZERO, (('KeyEvent::key', k), ('KeyEvent::state', s)))
    for count in (0, 1, 2):
      ks = [mk('PARAM', 'modifier', 'key', i) for i in range(count)]
      ss = [mk('PARAM', 'modifier', 'state', i) for i in range(count)]
      for held in [()] + [(k,) for k in ks] + ([tuple(ks)] if count == 2 else []):
        I = Interp(P, Spec(interest=lambda n: True, cap=4000, retcap=4000, unroll=8))
        for k, s in zip(ks, ss):
          I.tr[k], I.tr[s] = ((1, 0xFFFF),), ((0, 15),)

        def setup(I, st, args):
          if count == 2:
            I.assume(st, eq(ks[0], ks[1]), False)
          st.env[seq] = mk('list', *[ev(k, mk('PARAM', 'held', 'state', i)) for i, k in enumerate(held)])
          st.env[args[0].a[0]] = mk('list', *[ev(k, s) for k, s in zip(ks, ss)])
        done = I.run(f, (), obj=self.obj, setup=setup)
        ctx.used(I)
        for st, v in done:
          v = I.rv(st, v)
          for s in self.split(I, st, [eq(x, no) for x in ss] + [eq(v, C0)] if v.k != 'c' else [eq(x, no) for x in ss]):
            want = all((k in held) != bool(I.truth(s, eq(x, no))) for k, x in zip(ks, ss))
            got = not I.truth(s, eq(v, C0))
            ctx.ob('modifiers', '%d modifiers, %d held' % (count, len(held)), got == want, P.where(f),
              'the modifier filter %s although %s' % ('matches' if got else 'does not match', 'not all modifiers are as required' if got else 'all modifiers are as required'))

  # ------------------------------------------------------------------ devices
  def devices(self):
    P, ctx = self.P, self.ctx
    f = method(P, S + '::evaluate_device_filters')
    cl = F(self.obj, self.contexts)
    n = 0
    for count in (1, 2, 3):
      I = Interp(P, Spec(interest=lambda n: True, on_call=lambda I, st, ev: self.filters(I, st, ev), cap=4000, retcap=4000, unroll=8))
      descs = []

      def setup(I, st, args):
        st.env[cl] = mk('list', self.context(I, 0, True))
        descs.append(args[0].a[0])
        st.env[args[0].a[0]] = mk('list', *[fresh('device') for _ in range(count)])
      done = I.run(f, (), obj=self.obj, setup=setup)
      ctx.used(I)
      e = E(cl, C0)
      fl = [F(e, self.named('device_filter')), F(e, self.named('device_id_filter'))]
      part = ['DeviceDesc::name', 'DeviceDesc::id']
      for st, _ in done:
        got = I.load(st, F(e, self.named('matching_device_bits')))
        match = lambda d, k: eq(mk('PARAM', 'matches', mk('pair', fl[k], F(E(descs[0], C(d)), part[k])), 0), C1)
        conds = [eq(mk('PARAM', 'filter', x, 0), C1) for x in fl]
        for s in self.split(I, st, conds):
          n += 1
          if not any(I.truth(s, c) for c in conds):
            want, ok = 'all', got.k == 'c' and got.a[0] & ((1 << 64) - 1) == (1 << 64) - 1
            ctx.ob('devices', 'without filter', ok, P.where(f), 'a context without device filter does not match all devices')
            continue
          for s2 in self.split(I, s, [match(d, k) for d in range(count) for k in (0, 1)]):
            want = sum(1 << d for d in range(count) if I.truth(s2, match(d, 0)) and I.truth(s2, match(d, 1)))
            ok = got.k == 'c' and got.a[0] == want
            ctx.ob('devices', '%d devices' % count, ok, P.where(f), 'devices %s are marked as matching instead of %s' % (got, bin(want)))
    ctx.need('evaluations of device filters', n, 6)

  def device(self):
    P, ctx = self.P, self.ctx
    f = method(P, S + '::device_matches_filter')
    full = (1 << 64) - 1
    for idx in (-2, -1, 0, 1, 2, 31, 32, 63):
      for bits in (0, 1, 2, 4, 1 << 31, 1 << 32, 1 << 63, full - 1, full):
        I = Interp(P, Spec(interest=lambda n: True))

        def setup(I, st, args):
          st.env[F(args[0].a[0], self.named('matching_device_bits'))] = C(bits)
          return [args[0], C(idx)]
        for st, v in I.run(f, (), obj=self.obj, setup=setup):
          t = I.truth(st, v)
          want = True if idx == -2 else bits == full if idx == -1 else bool(bits >> idx & 1)
          ctx.ob('device', 'device %d' % idx, t is want, P.where(f), 'device %d and devices %s: %s' % (idx, bin(bits), {True: 'matches', False: 'does not match', None: 'undecided'}[t]))
        ctx.used(I)

  # ------------------------------------------------------------------- origin
  def origin(self):
    P, ctx = self.P, self.ctx
    f = method(P, S + '::match_input')
    dm = method(P, S + '::device_matches_filter')
    fo = method(P, S + '::find_output')
    cl, al = F(self.obj, self.contexts), F(self.obj, self.active)
    match = self.field(S, 'm_match')
    n = [0, 0, 0, 0]

    def index(loc):
      while loc is not None and not (loc.k == 'E' and loc.a[0] is cl):
        loc = loc.a[0] if loc.k in ('F', 'E', 'D', 'addr', 'LV') and loc.a else None
        if not hasattr(loc, 'k'):
          return None
      return loc.a[1] if loc is not None else None
    acts = [mk('PARAM', 'active', 'index', k) for k in (0, 1)]

    def is_active(I, st, i):
      return i in acts

    def on_call(I, st, ev):
      if ev.name == dm['n'] and ev.cls == S:
        n[0] += 1
        i = index(ev.args[0].a[0]) if ev.args[0].k == 'LV' else None
        dev = I.rv(st, ev.args[1])
        ctx.ob('origin', 'device compared', dev is dev0, I.where(ev.node), 'the filter of a context is compared with another device')
        s2 = st.copy()
        st.mon = tuple(m for m in st.mon if m[0] != 'ok') + (('ok', i),)
        return [(st, C1), (s2, C0)]
      if ev.obj is F(self.obj, match) or ev.cls == 'MatchKeySequence':
        n[1] += 1
        a = ev.args[0]
        i = self.source(I, st, a, index)
        ctx.ob('origin', 'inputs matched', i is not None and is_active(I, st, i), I.where(ev.node), 'an input is matched which is not one of an active context')
        ctx.ob('origin', 'device of inputs matched', i is not None and ('ok', i) in st.mon, I.where(ev.node), 'an input is matched in a context which was not found to match the device')
        r = fresh('result')
        I.tr[r] = ((0, 2),)
        return [(st, r)]
      if ev.name == fo['n'] and ev.cls == S:
        n[2] += 1
        i = index(ev.args[0].a[0]) if ev.args[0].k == 'LV' else None
        ctx.ob('origin', 'outputs looked up', i is not None and ('ok', i) in st.mon, I.where(ev.node), 'an output is looked up in another context than the one matched')
        return [(st, mk('output', i))]
      return None
    dev0 = self.devparam(f)
    I = Interp(P, Spec(interest=lambda x: x['k'] == 'Mem' and x.get('q') in (self.active, self.contexts, match), on_call=on_call, cap=40, retcap=40))
    for a in acts:
      I.tr[a] = ((0, 1 << 20),)

    def setup(I, st, args):
      st.env[al] = mk('list', *acts)
    done = I.run(f, (), obj=self.obj, setup=setup)
    ctx.used(I)
    for st, v in done:
      v = I.load_whole(st, v.a[0]) if v.k == 'LV' else v
      found = [t for t in subterms(v) if t in acts]
      if found:
        n[3] += 1
        ctx.ob('origin', 'context of the match', all(('ok', t) in st.mon for t in found), P.where(f), 'the match is reported for another context than the one matched')
      else:
        ctx.ob('origin', 'mapping of the match', not any(t.k in ('addr', 'output') for t in subterms(v)), P.where(f), 'a mapping is returned which is not one of an active context')
    ctx.need('matches reported', n[3], 2)
    ctx.need('comparisons of the device', n[0], 1)
    ctx.need('inputs matched', n[1], 1)
    ctx.need('outputs looked up', n[2], 1)

  def devparam(self, f):
    """the device of an event"""
    r = intparams(f)
    if len(r) != 1:
      raise AnalysisError('device of %s not found' % f['q'])
    return mk('PARAM', f['q'], f['params'][r[0]]['n'], r[0])

  def source(self, I, st, a, index):
    """index of the context an argument refers to"""
    if a.k == 'LV':
      i = index(a.a[0])
      if i is not None:
        return i
    # ranges made of a sequence
    for t in subterms(I.load_whole(st, a.a[0]) if a.k == 'LV' else a):
      if t.k in ('F', 'E'):
        i = index(t)
        if i is not None:
          return i
    return None

  # ------------------------------------------------------------------ outputs
  def outputs(self):
    P, ctx = self.P, self.ctx
    f = method(P, S + '::find_output')
    ft = method(P, S + '::fallthrough_context')
    cl, al = F(self.obj, self.contexts), F(self.obj, self.active)
    acts = [mk('PARAM', 'active', 'index', k) for k in (0, 1)]
    n = 0
    for sign in (1, -1):
      def on_call(I, st, ev):
        if ev.name == ft['n'] and ev.cls == S:
          return [(st, mk('PARAM', 'shared', I.rv(st, ev.args[0]), 0))]
        return None
      I = Interp(P, Spec(interest=lambda x: True, on_call=on_call, cap=40, retcap=40, small=10 ** 6))
      param = mk('D', mk('PARAM', f['q'], f['params'][0]['n'], 0))

      def setup(I, st, args):
        st.env[al] = mk('list', *acts)
        I.constrain(st, args[1], ((0, 1 << 20),) if sign > 0 else ((-(1 << 20), -1),))
      for st, v in I.run(f, (), obj=self.obj, setup=setup):
        v = I.rv(st, v)
        if I.truth(st, eq(v, C0)) is True:
          continue
        n += 1
        sub = list(subterms(v))
        if sign > 0:
          ctx.ob('origin', 'direct outputs', param in sub, P.where(f), 'the output of a mapping is not taken from its own context')
        else:
          ctx.ob('origin', 'outputs of commands', cl in sub and any(a in sub for a in acts + [al]) and param not in sub, P.where(f),
            'the output of a command is not taken from an active context')
      ctx.used(I)
    ctx.need('outputs found', n, 2)

  # --------------------------------------------------------------- recomputed
  def recomputed(self):
    P, ctx = self.P, self.ctx
    up = method(P, S + '::update_active_contexts')
    mi = method(P, S + '::match_input')
    seq = self.field(S, 'm_sequence')
    # whatever changes the reported contexts
    n = 0
    for f in P.funcs.values():
      if f.get('cls') != S or f.get('ctor') or f.get('dtor') or f.get('implicit') or f.get('lambda'):
        continue
      if not any(x['k'] == 'Call' and (callee(x) or {}).get('n') in CHANGE and x.get('o') is not None and x['o'].get('q') == self.client for x in P.nodes(f)):
        continue
      n += 1

      def on_call(I, st, ev):
        if ev.name == up['n'] and ev.cls == S:
          st.mon = ()
          return [(st, VOID)]
        if ev.obj is F(self.obj, self.client) and ev.name in CHANGE:
          st.mon = (('changed',),)
        return None
      I = Interp(P, Spec(interest=lambda x: x['k'] == 'Mem' and x.get('q') == self.client or node_calls(x, up['n']), on_call=on_call, cap=40, retcap=40))
      for st, _ in I.run(f, (), obj=self.obj):
        ctx.ob('recomputed', 'reported contexts changed by %s' % f['q'], not st.mon, P.where(f), 'the reported contexts change without the active ones being recomputed')
      ctx.used(I)
    ctx.need('functions changing the reported contexts', n, 1)
    # an event is only matched after the contexts were evaluated with it
    f = method(P, S + '::apply_input')
    dev0 = self.devparam(f)
    m = [0]

    def on_call(I, st, ev):
      if ev.name == up['n'] and ev.cls == S:
        st.mon = ()
        return [(st, VOID)]
      if ev.obj is F(self.obj, seq) and ev.name in ('push_back', 'emplace_back', 'insert'):
        st.mon = (('added',),)
      if ev.name == mi['n'] and ev.cls == S:
        m[0] += 1
        ctx.ob('device', 'device in %s' % f['q'], dev0 in [I.rv(st, a) for a in ev.args], I.where(ev.node), 'an event is matched for another device')
        ctx.ob('recomputed', 'inputs matched by %s' % f['q'], not st.mon, I.where(ev.node), 'an event is matched before the contexts are evaluated with it')
      return None
    I = Interp(P, Spec(interest=lambda x: node_calls(x, up['n'], mi['n']), on_call=on_call, cap=12, retcap=12,
      inline=lambda I, g: False if g['n'] in (mi['n'], 'apply_output', 'release_triggered', 'continue_output_on_release', 'forward_from_sequence') else None))

    def setup(I, st, args):
      st.mon = (('added',),)
    for st, _ in I.run(f, (), obj=self.obj, setup=setup):
      pass
    ctx.used(I)
    ctx.need('matches of events', m[0], 1)

  # ------------------------------------------------------------------- stages
  def stages(self):
    P, ctx = self.P, self.ctx
    M = 'MultiStage'
    obj = mk('OBJ', M)
    sl = F(obj, self.field(M, 'm_stages'))
    f = method(P, M + '::set_active_client_contexts')
    n = 0
    st0 = [mk('D', mk('PARAM', 'stage', 's', i)) for i in (0, 1)]
    sizes = [3, 2]
    for x in (0, 2, 3, 4):
      def on_call(I, st, ev):
        if ev.cls == S and ev.name == 'contexts' and ev.obj in st0:
          return [(st, mk('LV', mk('D', mk('PARAM', 'contexts', 'c', st0.index(ev.obj)))))]
        if ev.cls == S and ev.name == 'set_active_client_contexts' and ev.obj in st0:
          a = ev.args[0]
          st.mon = st.mon + ((st0.index(ev.obj), I.load_whole(st, a.a[0]) if a.k == 'LV' else a),)
          return [(st, mk('list'))]
        if ev.cls == S and ev.obj in st0:
          return [(st, mk('list') if ev.name == 'update' else VOID)]
        return None
      I = Interp(P, Spec(interest=lambda k: True, on_call=on_call, cap=400, retcap=400, unroll=8))

      def setup(I, st, args):
        st.env[sl] = mk('list', *[mk('ptrto', s) for s in st0])
        st.env[F(obj, self.field(M, 'm_output_buffer'))] = mk('list')
        for i, k in enumerate(sizes):
          st.env[mk('D', mk('PARAM', 'contexts', 'c', i))] = mk('list', *[fresh('context') for _ in range(k)])
        st.env[args[0].a[0]] = mk('list', C(x))
      done = I.run(f, (), obj=obj, setup=setup)
      ctx.used(I)
      for st, _ in done:
        n += 1
        want = [(0, [x] if x < 3 else []), (1, [x - 3] if x >= 3 else [])]
        got = [(i, [t.a[0] if t.k == 'c' else t for t in v.a] if v.k == 'list' else v) for i, v in st.mon]
        ctx.ob('stages', 'context %d of stages with %s contexts' % (x, sizes), got == want, P.where(f), 'stages are given contexts %s instead of %s' % (got, want))
        rec = I.load_whole(st, F(obj, self.field(M, 'm_active_client_contexts')))
        ctx.ob('recomputed', 'reported contexts are kept', rec.k == 'list' and len(rec.a) == 1 and rec.a[0] is C(x), P.where(f), 'the reported contexts are not kept for the evaluation of device filters')
    ctx.need('distributions of contexts', n, 4)
    f = method(P, M + '::evaluate_device_filters')

    def on_call(I, st, ev):
      if ev.cls == S and ev.obj in st0:
        if ev.name == 'evaluate_device_filters':
          st.mon = st.mon + (st0.index(ev.obj),)
        return [(st, VOID)]
      return None
    I = Interp(P, Spec(interest=lambda k: True, on_call=on_call, unroll=8))

    def setup(I, st, args):
      st.env[sl] = mk('list', *[mk('ptrto', s) for s in st0])
    for st, _ in I.run(f, (), obj=obj, setup=setup):
      ctx.ob('stages', 'device filters', sorted(st.mon) == [0, 1], P.where(f), 'the device filters of a stage are not evaluated')
    ctx.used(I)

  # ------------------------------------------------------------------- server
  def server(self):
    P, ctx = self.P, self.ctx
    C_ = 'ServerState'
    obj = mk('OBJ', C_)
    descs = F(obj, self.field(C_, 'm_device_descs'))
    n = 0

    def run(f, want):
      def on_call(I, st, ev):
        if ev.cls == 'MultiStage':
          if ev.name == 'has_device_filters':
            t = mk('PARAM', 'has filters', 'f', 0)
            I.tr[t] = ((0, 1),)
            return [(st, t)]
          if ev.name == 'evaluate_device_filters':
            a = ev.args[0]
            st.mon = tuple(m for m in st.mon if m != 'active') + (('filters', a.k == 'LV' and a.a[0] is descs),)
            return [(st, VOID)]
          if ev.name == 'active_client_contexts':
            return [(st, mk('LV', mk('D', mk('PARAM', 'reported', 'r', 0))))]
          if ev.name == 'set_active_client_contexts':
            a = ev.args[0]
            st.mon = st.mon + ('active', ('given', a.a[0] if a.k == 'LV' else a))
            return [(st, fresh('output'))]
        if ev.name in ('flush_send_buffer', 'send_key_sequence', 'verbose'):
          return [(st, fresh('x'))]
        return None
      I = Interp(P, Spec(interest=lambda k: node_calls(k, 'evaluate_device_filters', 'set_active_client_contexts'), on_call=on_call, cap=40, retcap=40))
      k = 0
      for st, _ in I.run(f, (), obj=obj):
        k += 1
        want(I, st, f)
      ctx.used(I)
      return k

    def devices(I, st, f):
      nothing = I.truth(st, eq(mk('PARAM', 'has filters', 'f', 0), C0)) is True or I.truth(st, eq(I.sizeterm(st, descs), C0)) is True
      ev = ('filters', True) in st.mon
      ctx.ob('recomputed', 'device filters in %s' % f['q'], ev or nothing, P.where(f), 'the device filters are not evaluated with the new devices')
      ctx.ob('recomputed', 'active contexts in %s' % f['q'], not ev or 'active' in st.mon, P.where(f), 'the active contexts are not recomputed after the device filters')

    def active(I, st, f):
      p = mk('D', mk('PARAM', f['q'], f['params'][0]['n'], 0))
      ctx.ob('recomputed', 'contexts given to the stages by %s' % f['q'], 'active' in st.mon and ('given', p) in st.mon, P.where(f), 'the reported contexts are not passed on')
    stage = self.field(C_, 'm_stage')
    changing = [f for f in P.funcs.values() if f.get('cls') == C_ and not f.get('ctor') and not f.get('dtor') and not f.get('implicit') and not f.get('lambda')
      and any(x['k'] == 'Call' and (callee(x) or {}).get('n') in CHANGE + ('reset',) and any(y is not None and y.get('q') in (stage, C_ + '::m_device_descs') for y in [x.get('o')] + x.get('a', [])[:1]) for x in P.nodes(f))]
    self.ctx.need('functions changing devices or configuration', len(changing), 2)
    for f in changing:
      n += run(f, devices)
    n += run(method(P, C_ + '::on_active_contexts_message'), active)
    ctx.need('paths of the daemon', n, 3)

  def passed(self):
    """events keep their device until they are matched"""
    P, ctx = self.P, self.ctx
    names = {('ServerState', 'translate_input'), ('MultiStage', 'update'), (S, 'update'), (S, 'apply_input')}
    n = [0]
    for f in [method(P, 'ServerState::translate_input'), method(P, 'MultiStage::update'), method(P, S + '::update')]:
      dev = self.devparam(f)

      def on_call(I, st, ev):
        if (ev.cls, ev.name) in names:
          n[0] += 1
          ctx.ob('device', 'device in %s' % f['q'], dev in [I.rv(st, a) for a in ev.args], I.where(ev.node), 'an event is passed on for another device')
          return [(st, fresh('output'))]
        return None
      I = Interp(P, Spec(interest=lambda x: node_calls(x, *[b for a, b in names]), on_call=on_call, cap=40, retcap=40,
        # other events, e.g. toggled virtual keys, have a device of their own
        inline=lambda I, g: False if g.get('cls') in ('ServerState', 'MultiStage', S) and not g.get('lambda') and not intparams(g) else None))
      I.run(f, (), obj=mk('OBJ', f['cls']))
      ctx.used(I)
    ctx.need('events passed on', n[0], 3)


CHANGE = ('operator=', 'assign', 'swap', 'clear', 'push_back', 'insert', 'erase', 'emplace_back', 'resize')


def intparams(f):
  return [k for k, p in enumerate(f['params']) if (p['t'] or {}).get('bits') == 32 and p['t'].get('signed') and not p['t'].get('enum')]


def subterms(t):
  work, seen = [t], set()
  while work:
    x = work.pop()
    if isinstance(x, tuple):
      work.extend(x)
      continue
    if not hasattr(x, 'k') or id(x) in seen:
      continue
    seen.add(id(x))
    yield x
    work.extend(x.a)

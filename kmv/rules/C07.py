"""C07: keys pressed by the mapping engine are recorded until they are released."""
from .common import *

TECHNIQUE = 'path-sensitive abstract interpretation of the functions changing the held keys and the output events: the record of an arbitrary key is compared with the effect of the events on every path'
NOTE = ('Decided for records of none, one and two held keys with arbitrary flags and for empty and non-empty pending output; the functions treat the entries one by one. '
  'Virtual keys are toggled by the output and excepted. A key marked as pressed twice is assumed to have been down before its last pending press.')

STAGE = 'Stage'


def check(ctx):
  ctx.rule('recorded', 'a key is recorded as held exactly when the output events leave it pressed')
  ctx.rule('once', 'a held key is recorded once')
  ctx.rule('press', 'other functions only add timeout requests to the output')
  P = load('keymapperd')
  Held(ctx, P).decide()


class Held:
  def __init__(self, ctx, P):
    self.ctx, self.P = ctx, P
    recs = [r for r in P.records if r.startswith(STAGE + '::') and {'key', 'trigger'} <= {f['n'] for f in P.records[r]['fields']} and
      any((f['t'] or {}).get('bool') and 'released' in f['n'] for f in P.records[r]['fields'])]
    if len(recs) != 1:
      raise AnalysisError('record of held keys not found')
    self.rec = recs[0]
    self.temp = [self.rec + '::' + f['n'] for f in P.records[self.rec]['fields'] if 'released' in f['n']][0]
    self.list = self.member(lambda t: bare(t.get('rec') or '') == 'std::vector' and any(str(a).split('::')[-1] == self.rec.split('::')[-1] for a in t.get('ta') or []), 'held keys')
    seqs = [f for f in P.records[STAGE]['fields'] if (f['t'] or {}).get('rec') == 'KeySequence']
    self.out = [STAGE + '::' + f['n'] for f in seqs if 'output' in f['n']]
    if len(self.out) != 1:
      raise AnalysisError('output events not found')
    self.out = self.out[0]
    self.up, self.down = enum_val(P, 'KeyState', 'Up'), enum_val(P, 'KeyState', 'Down')
    self.timeout = enum_val(P, 'Key', 'timeout')

  def member(self, pred, what):
    r = [f['n'] for f in self.P.records[STAGE]['fields'] if pred(f['t'] or {})]
    if len(r) != 1:
      raise AnalysisError('%s not found' % what)
    return STAGE + '::' + r[0]

  def changes(self, f):
    """members changed by a function: held keys, output"""
    P, r = self.P, set()
    for n in P.nodes(f):
      if n['k'] == 'Call':
        c = callee(n) or {}
        o = n.get('o')
        if o is not None and o['k'] == 'Mem' and o.get('q') in (self.list, self.out) and c.get('n') in CHANGE:
          r.add(o['q'])
        if o is not None and o['k'] == 'Mem' and o.get('q') in (self.list, self.out) and c.get('n') == 'operator=':
          r.add(o['q'])
        for a, p in zip(n['a'], c.get('pt') or []):
          # the containers themselves handed to functions changing them
          if a['k'] == 'Mem' and a.get('q') in (self.list, self.out) and p.get('ref') and not p.get('const') and not p.get('rref') and \
              c.get('n') not in ('begin', 'end', 'rbegin', 'rend', 'move'):
            r.add(a['q'])
          if c.get('n') in ('remove_if', 'remove', 'stable_partition', 'partition', 'sort') and self.list in [x.get('q') for x in walk(a)]:
            r.add(self.list)
      if n['k'] == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') and n['a']['k'] == 'Mem' and n['a'].get('q') == self.temp:
        r.add(self.list)
    return r

  def decide(self):
    P, ctx = self.P, self.ctx
    own = {f['id']: f for f in P.funcs.values() if f.get('cls') == STAGE and not f.get('ctor') and not f.get('dtor') and not f.get('implicit') and not f.get('lambda')}
    # functions which change the held keys, with the helpers only they call
    keys = {i: self.changes(f) for i, f in own.items()}
    for i, f in own.items():
      for _, t in P.edges(f):
        if t.get('lambda'):
          keys[i] = keys[i] | self.changes(t)
    roots = {i for i in own if self.list in keys[i]}
    emit = {i for i in own if self.out in keys[i]} - roots
    named = {i for i in own if own[i]['n'] in ('update_output', 'release_triggered', 'validate_state')}
    inner = set()
    callers = {}
    for i, f in own.items():
      work, seen = [f], set()
      while work:
        for _, t in P.edges(work.pop()):
          if t.get('lambda') and t['id'] not in seen:
            seen.add(t['id'])
            work.append(t)
          callers.setdefault(t['id'], set()).add(i)
    for i in roots | emit:
      cs = callers.get(i, set()) - {i}
      if i not in named and cs and cs <= (roots | named) | inner:
        inner.add(i)
    roots |= {i for i in named if P.reach(own[i]).keys() & (roots | emit) - {i}}
    n = 0
    for i in sorted(roots - inner, key=lambda i: own[i]['l']):
      n += self.function(own[i])
    for i in sorted(emit - inner, key=lambda i: own[i]['l']):
      self.emitter(own[i])
    ctx.need('functions changing the held keys', len(roots - inner), 3)
    ctx.need('paths', n, 30)

  def spec(self, f, more=None):
    P = self.P
    changed = (self.list, self.out)

    def on_call(I, st, ev):
      if ev.name == 'get_trigger_key' and len(ev.args) == 1:
        a = ev.args[0]
        v = I.load_whole(st, a.a[0]) if a.k == 'LV' else a
        t = mk('PARAM', 'trigger of', v, 0)
        return [(st, t)]
      if ev.name == 'operator()' and ev.cls and bare(ev.cls) == 'std::function':
        k = I.rv(st, ev.args[0])
        s2 = st.copy()
        if k.k == 'PARAM' and k.a[0] in ('held', 'trigger of') and ('down', k) not in s2.mon:
          s2.mon = s2.mon + (('down', k),)
        return [(st, C1), (s2, C0)]
      return None

    def wanted(n):
      return n['k'] == 'Mem' and (n.get('q') in changed or (n.get('q') or '').startswith(self.rec + '::'))
    sp = Spec(interest=wanted, on_call=more or on_call, cap=4000, retcap=4000, unroll=6)
    sp.listpaths = 64
    return sp

  def function(self, f):
    P, ctx = self.P, self.ctx
    obj = mk('OBJ', STAGE)
    lloc, bloc = F(obj, self.list), F(obj, self.out)
    ranges = self.keys()
    fields = P.records[self.rec]['fields']
    paths = 0
    takes = any((p.get('t') or {}).get('rec') == 'KeyEvent' for p in f['params'])
    for held in (0, 1, 2):
      ks = [mk('PARAM', 'held', 'key%d' % i, i) for i in range(held)]
      ke0, pk0, ps, es = (mk('PARAM', *x, 0) for x in (('event', 'key'), ('pending', 'key'), ('pending', 'state'), ('event', 'state')))
      for ke in (ks + [ke0] if takes else [None]):
        known = ks + ([ke0] if ke is ke0 else [])
        for pk in [None] + known + [pk0]:
          distinct = known + ([pk0] if pk is pk0 else [])
          I = Interp(P, self.spec(f))
          for k in distinct:
            I.tr[k] = ranges
          I.tr[ps] = ((min(self.up, self.down), max(self.up, self.down)),)
          I.tr[es] = ((0, 15),)
          entries, flags = [], []
          for i, k in enumerate(ks):
            fl = {}
            for x in fields:
              q = self.rec + '::' + x['n']
              if x['n'] == 'key':
                fl[q] = k
              else:
                fl[q] = mk('PARAM', 'entry', q, i)
                I.settype(fl[q], x['t'] or {})
                if (x['t'] or {}).get('bool'):
                  I.tr[fl[q]] = ((0, 1),)
            entries.append(mk('rec', ZERO, tuple(fl.items())))
            flags.append(fl)

          def setup(I, st, args):
            st.env[lloc] = mk('list', *entries)
            st.env[bloc] = mk('list', *([self.event(pk, ps)] if pk is not None else []))
            for i, x in enumerate(distinct):
              for y in distinct[:i]:
                I.assume(st, eq(x, y), False)
            out = []
            for p, a in zip(f['params'], args):
              if ((p.get('t') or {}).get('rec') or '') == 'KeyEvent':
                v = self.event(ke, es)
                if a.k == 'LV':
                  st.env[a.a[0]] = v
                else:
                  a = v
              out.append(a)
            return out
          done = I.run(f, (), obj=obj, setup=setup)
          ctx.used(I)
          for st, _ in done:
            paths += 1
            self.outcome(I, st, f, ks, flags, ke0 if ke is ke0 else None, (pk, ps) if pk is not None else None, lloc, bloc)
    return paths

  def keys(self):
    P = self.P
    lo, hi = enum_val(P, 'Key', 'first_virtual'), enum_val(P, 'Key', 'last_virtual')
    bad = sorted([(lo, hi), (self.timeout, self.timeout), (enum_val(P, 'Key', 'none'),) * 2])
    out, a = [], 0
    for x, y in bad:
      if x > a:
        out.append((a, x - 1))
      a = max(a, y + 1)
    return tuple(out + [(a, 0xFFFF)])

  def event(self, k, s):
    return mk('rec', ZERO, (('KeyEvent::key', k), ('KeyEvent::state', s), ('KeyEvent::value', C0)))

  def split(self, I, st, cond):
    for v in (True, False):
      s = st.copy()
      if I.assume(s, cond, v):
        yield s, v

  def outcome(self, I, st, f, ks, flags, ke, pending, lloc, bloc):
    P, ctx = self.P, self.ctx
    after = I.load_whole(st, lloc)
    buf = I.load_whole(st, bloc)
    where = P.where(f)
    if after.k != 'list' or buf.k != 'list':
      raise AnalysisError('held keys or output of %s not followed' % f['q'])
    tracked = list(range(len(ks))) + ([None] if ke is not None else [])
    for i in tracked:
      k = ks[i] if i is not None else ke
      for s in self.cases(I, st.copy(), k, after, buf, flags[i] if i is not None else None, pending):
        self.compare(I, s, f, k, i, flags, after, buf, pending, where)

  def cases(self, I, st, k, after, buf, fl, pending):
    """decide what the comparison depends on"""
    conds = []
    for e in buf.a:
      conds.append(eq(I.fld(e, 'KeyEvent::key'), k))
      conds.append(eq(I.fld(e, 'KeyEvent::state'), C(self.down)))
    if pending:
      conds += [eq(pending[0], k), eq(pending[1], C(self.down))]
    for e in after.a:
      conds.append(eq(I.fld(e, self.rec + '::key'), k))
      conds.append(eq(I.fld(e, self.temp), C0))
    if fl:
      conds += [eq(v, C0) for q, v in fl.items() if v.k == 'PARAM' and I.tr.get(v) == ((0, 1),)]
    states = [st]
    for c in conds:
      if c.k == 'c':
        continue
      states = [s2 for s in states for s2, _ in self.split(I, s, c)]
    return states

  def compare(self, I, st, f, k, i, flags, after, buf, pending, where):
    ctx = self.ctx
    T = lambda c: bool(I.truth(st, c))
    fl = flags[i] if i is not None else {}
    flag = lambda name: any(name in q.split('::')[-1] and not T(eq(v, C0)) for q, v in fl.items() if v.k == 'PARAM' and I.tr.get(v) == ((0, 1),))
    before = i is not None and not flag('released')
    h0 = before
    if pending and T(eq(pending[0], k)):
      d = T(eq(pending[1], C(self.down)))
      # the record matches the pending output
      if before != d:
        return
      # a key pressed twice was down before its last press, released ones have no pending press
      if flag('released') and flag('twice') and not flag('suppressed'):
        return
      h0 = True if flag('twice') else not d
    for s_, kk in [(I.fld(e, 'KeyEvent::state'), I.fld(e, 'KeyEvent::key')) for e in buf.a]:
      if T(eq(kk, k)):
        h0 = T(eq(s_, C(self.down)))
    rec = [e for e in after.a if T(eq(I.fld(e, self.rec + '::key'), k))]
    who = 'held key' if i is not None else 'key of the event'
    ctx.ob('once', f['q'], len(rec) <= 1, where, '%s records a key twice' % f['q'])
    now = any(T(eq(I.fld(e, self.temp), C0)) for e in rec)
    # reported as no longer down by the platform
    if not rec and h0 and i is not None:
      tk = mk('PARAM', 'trigger of', fl[self.rec + '::trigger'], 0)
      if any(m[0] == 'down' and (m[1] is k or m[1] is tk) for m in st.mon):
        return
    what = 'stays pressed without being recorded' if h0 else 'is recorded as pressed without being so'
    ctx.ob('recorded', '%s: %s' % (f['q'], who), h0 == now, where, '%s: %s %s (%s)' % (f['q'], who, what,
      ', '.join('%s=%d' % (q.split('::')[-1], not T(eq(v, C0))) for q, v in fl.items() if I.tr.get(v) == ((0, 1),)) or 'not held before'))

  def emitter(self, f):
    """functions adding to the output without changing the held keys"""
    P, ctx = self.P, self.ctx
    obj = mk('OBJ', STAGE)
    bloc = F(obj, self.out)
    moved = set()

    def on_call(I, st, ev):
      if ev.obj is bloc and ev.name in ('push_back', 'emplace_back', 'insert', 'emplace'):
        v = ev.args[0]
        if ev.name == 'emplace_back' and len(ev.args) > 1:
          k = I.rv(st, v)
        else:
          k = I.load(st, F(v.a[0], 'KeyEvent::key')) if v.k == 'LV' else I.fld(v, 'KeyEvent::key')
        ok = ev.name in ('push_back', 'emplace_back') and I.truth(st, eq(k, C(self.timeout))) is True
        ctx.ob('press', f['q'], ok, I.where(ev.node), '%s adds an event to the output without recording the key' % f['q'])
        return [(st, VOID)]
      if ev.obj is bloc and ev.name in ('erase', 'resize', 'assign', 'swap'):
        ctx.ob('press', f['q'], False, I.where(ev.node), '%s changes the pending output' % f['q'])
      return None
    sp = self.spec(f, on_call)
    sp.cap = sp.retcap = 40
    I = Interp(P, sp)
    I.run(f, (), obj=obj)
    ctx.used(I)


CHANGE = ('push_back', 'emplace_back', 'erase', 'clear', 'insert', 'emplace', 'assign', 'swap', 'pop_back', 'resize')

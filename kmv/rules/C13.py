"""C13: parsers start from a clean state."""
from .common import *

TECHNIQUE = 'definite-initialisation dataflow analysis of the parser objects and of static variables over the clang AST (interprocedural, every path of a parse from its entry)'
NOTE = ('Every member, member of a member record and changeable static variable is shown to be assigned as a whole before it is first read. '
  'The string typer is excepted: it holds the tables of the keyboard layout, not of a text.')

PARSERS = ('ParseConfig', 'ParseKeySequence')
# holds the keyboard layout of the system
LAYOUT = 'StringTyper'
RESET = ('clear', 'reset', 'assign', 'operator=')
ASSIGN = ('+=', '-=', '*=', '/=', '|=', '&=', '^=', '%=', '<<=', '>>=')


def check(ctx):
  ctx.rule('fresh', 'whatever a parse reads of the parser\'s state was assigned earlier in this parse')
  P = load('keymapper')
  for cls in PARSERS:
    roots = [f for f in P.funcs.values() if f.get('cls') == cls and f.get('access', 'public') == 'public' and f['n'] == 'operator()' and not f.get('lambda')]
    if len(roots) != 1:
      raise AnalysisError('entry of %s not found' % cls)
    Fresh(ctx, P, cls).root(roots[0])


class Fresh:
  def __init__(self, ctx, P, cls):
    self.ctx, self.P, self.cls = ctx, P, cls
    self.items = {}       # field or static -> set of parts
    self.memo, self.active, self.throwing = {}, set(), {}
    self.reads = 0
    for f in P.records[cls]['fields']:
      t = f['t'] or {}
      if self.layout(t) or bare(t.get('rec') or t.get('b') or '') in PARSERS:
        continue
      q = cls + '::' + f['n']
      r = P.records.get(bare(t.get('rec') or ''))
      if r and r.get('fields') and not r['q'].startswith('std::'):
        self.items[q] = {(q, r['q'] + '::' + x['n']) for x in r['fields']}
      else:
        self.items[q] = {(q, '')}

  def mods(self, g):
    out = set(self.P.direct_mods(g))
    for n in self.P.nodes(g):
      if n['k'] == 'Call' and (callee(n) or {}).get('n') == 'operator=':
        out.update(self.P.base_field(n['o'] if n.get('o') is not None else n['a'][0]))
    return out

  def layout(self, t):
    return bare(t.get('rec') or '') == LAYOUT or any(bare(str(a)) == LAYOUT for a in t.get('ta') or [])

  def root(self, f):
    P = self.P
    members = len(self.items)
    mods, shared = set(), set()
    for g in P.funcs.values():
      mods |= {m for m in self.mods(g) if m.startswith('::')}
    inside = P.reach(f)
    for g in inside.values():
      for n in P.nodes(g):
        if n['k'] == 'Ref' and n.get('dk') in ('global', 'slocal'):
          q = '::' + (n.get('q') or n['n'])
          if q in mods and not q.startswith('::std::') and not (n.get('t') or {}).get('const'):
            t = n.get('t') or {}
            if bare(t.get('rec') or '') in PARSERS or self.layout(t):
              continue
            self.items[q] = {(q, '')}
            if n['dk'] == 'global':
              shared.add(q)
    out = self.visit(f, frozenset())
    # a static variable a parse may change is used by others, also when not by the parse
    own = set()
    for g in inside.values():
      own |= self.mods(g)
    for q in sorted(self.items):
      if q in shared and q in own:
        self.ctx.ob('fresh', '%s of %s' % (q.strip(':').rsplit('::', 1)[-1], self.cls), self.items[q] <= out, self.P.where(f),
          '%s is changed by some texts but not assigned in every parse, so it keeps what an earlier text has set' % q.strip(':').rsplit('::', 1)[-1])
    self.ctx.need('members of %s' % self.cls, members, 6)
    self.ctx.need('uses of the state of %s' % self.cls, self.reads, 20)
    for q, parts in sorted(self.items.items()):
      self.ctx.ob('fresh', '%s of %s' % (q.strip(':').rsplit('::', 1)[-1], self.cls), True)
    for k in self.memo:
      self.ctx.fns.add(P.funcs[k[0]]['q'])

  # -- state: parts known to be assigned in this parse

  def may_throw(self, f):
    i = f['id']
    if i not in self.throwing:
      self.throwing[i] = False
      self.throwing[i] = any(n['k'] == 'Throw' or n['k'] == 'Call' and not callee(n)
        for g in self.P.reach(f).values() for n in self.P.nodes(g))
    return self.throwing[i]

  def parts(self, e):
    """(parts denoted by an access path, whole field denoted) or None"""
    chain = []
    while isinstance(e, dict):
      if e['k'] == 'Mem':
        if e['q'] in self.items:
          for s in reversed(chain):
            p = (e['q'], s)
            if p in self.items[e['q']]:
              return {p}, len(chain) == 1
            break
          return self.items[e['q']], not chain
        chain.append(e['q'])
        e = e.get('b')
      elif e['k'] == 'Ref':
        q = '::' + (e.get('q') or e.get('n') or '')
        if e.get('dk') in ('global', 'slocal') and q in self.items:
          return self.items[q], not chain
        return None
      elif e['k'] in ('Cast', 'Paren'):
        e = e.get('a')
      else:
        return None
    return None

  def read(self, parts, st, n):
    self.reads += 1
    miss = parts - st
    for q, s in sorted(miss):
      name = (s or q).strip(':').rsplit('::', 1)[-1]
      self.ctx.ob('fresh', '%s of %s' % (q.strip(':').rsplit('::', 1)[-1], self.cls), False, '%s (%s)' % (self.where(n), self.fn['q']),
        '%s is used here before it was assigned in this parse, so the result depends on what was parsed before' % name)

  def where(self, n):
    return '%s:%s' % (self.P.rel(self.fn), n.get('l', self.fn['l']))

  def visit(self, f, st):
    k = (f['id'], st)
    if k in self.memo:
      return self.memo[k]
    if f['id'] in self.active or not f.get('body'):
      return st
    self.active.add(f['id'])
    saved = getattr(self, 'fn', None), getattr(self, 'rets', None), getattr(self, 'throws', None), getattr(self, 'jumps', None)
    self.fn, self.rets, self.throws, self.jumps = f, [], [], []
    for i in f.get('inits') or []:
      for kk in ('e', 'init', 'a'):
        if isinstance(i.get(kk), dict) and 'k' in i[kk]:
          st = self.ev(i[kk], st)
    r = self.ex(f['body'], st)
    out = self.meet(self.rets + ([r] if r is not None else []))
    self.fn, self.rets, self.throws, self.jumps = saved
    self.active.discard(f['id'])
    out = st if out is None else out
    self.memo[k] = out
    return out

  def meet(self, ss):
    ss = [s for s in ss if s is not None]
    if not ss:
      return None
    r = ss[0]
    for s in ss[1:]:
      r = r & s
    return r

  def ex(self, n, st):
    """state after a statement; None when it is not reached"""
    if n is None or st is None:
      return st
    k = n['k']
    if k == 'Block':
      for s in n['s']:
        if isinstance(s, dict):
          if st is None and s['k'] in ('Label', 'Case', 'Default'):
            st = frozenset()
          st = self.ex(s, st)
      return st
    if k in ('If',):
      for x in ('init', 'cvar'):
        if n.get(x):
          st = self.ex(n[x], st)
      st = self.ev(n['c'], st) if n.get('c') else st
      branches = [n.get(x) for x in ('t', 'then', 'a') if n.get(x)][:1]
      other = [n.get(x) for x in ('e', 'else', 'b') if n.get(x)][:1]
      a = self.ex(branches[0], st) if branches else st
      b = self.ex(other[0], st) if other else st
      return self.meet([a, b])
    if k in ('While', 'For', 'RangeFor', 'Do', 'Switch'):
      for x in ('init', 'cvar', 'range', 'c'):
        if n.get(x) and isinstance(n[x], dict) and 'k' in n[x]:
          st = self.ex(n[x], st)
      b = self.ex(n.get('body'), st)
      if k == 'For' and n.get('inc') and b is not None:
        self.ev(n['inc'], b)
      if k == 'Do' and b is not None:
        return b if not any(x['k'] in ('Break', 'Continue') for x in walk(n['body'])) else st
      # left by its condition or from within
      return st
    if k == 'Ret':
      if n.get('a') is not None:
        st = self.ev(n['a'], st)
      self.rets.append(st)
      return None
    if k in ('Break', 'Continue', 'Goto'):
      return None
    if k in ('Case', 'Default', 'Label'):
      return self.ex(n.get('s'), st)
    if k == 'Try':
      saved, self.throws = self.throws, []
      a = self.ex(n['b'], st)
      start = self.meet(self.throws)
      self.throws = saved + self.throws
      outs = [a]
      for h in n['h']:
        b = h.get('b') if 'k' not in h else h
        if isinstance(b, dict) and start is not None:
          outs.append(self.ex(b if b['k'] != 'Catch' else b.get('b'), start))
      return self.meet(outs)
    if k == 'Decl':
      for d in n['d']:
        st = self.ex(d, st)
      return st
    if k == 'Var':
      if n.get('init'):
        st = self.ev(n['init'], st)
      return st
    if k == 'Empty':
      return st
    return self.ev(n, st)

  def ev(self, n, st):
    if n is None or st is None:
      return st
    k = n['k']
    if k == 'Throw':
      for c in children(n):
        st = self.ev(c, st)
      self.throws.append(st)
      return None
    if k in ('Mem', 'Ref'):
      p = self.parts(n)
      if p:
        self.read(p[0], st, n)
        return st
      if k == 'Ref' and n.get('dk') == 'func' or k == 'Mem' and callee(n):
        # a function handed to somebody else may be called from now on
        for t in self.P.targets(n) or ([self.P.funcs[n.get('id')]] if n.get('id') in self.P.funcs else []):
          self.call(t, st)
        c = callee(n)
        if c and c['id'] in self.P.funcs:
          self.call(self.P.funcs[c['id']], st)
      return self.ev(n.get('b'), st) if k == 'Mem' and isinstance(n.get('b'), dict) else st
    if k == 'Bin' and n['op'] == '=':
      st = self.ev(n['b'], st)
      return self.store(n['a'], st)
    if k == 'Bin' and n['op'] in ('&&', '||') or k == 'Cond':
      cs = list(children(n))
      st = self.ev(cs[0], st)
      for c in cs[1:]:
        self.ev(c, st)
      return st
    if k == 'Lambda':
      for i in n.get('insts') or [n['id']]:
        f = self.P.funcs.get(i)
        if f:
          self.call(f, st)
      for c in n.get('caps') or []:
        x = c.get('init') or c.get('e')
        if isinstance(x, dict) and 'k' in x:
          self.ev(x, st)
      return st
    if k == 'Call':
      c = callee(n)
      o, args = n.get('o'), list(n['a'])
      if c and c['n'] in RESET and c['id'] not in self.P.funcs or c and c['n'] == 'operator=':
        tgt = o if o is not None else args[0] if args else None
        for a in (args if o is not None else args[1:]):
          st = self.ev(a, st)
        return self.store(tgt, st)
      if c and c['n'] == 'emplace' and o is not None and 'optional' in c['q']:
        for a in args:
          st = self.ev(a, st)
        return self.store(o, st)
      if o is not None:
        st = self.ev(o, st)
      if isinstance(n.get('f'), dict) and 'k' in n['f']:
        st = self.ev(n['f'], st)
      for a in args:
        st = self.ev(a, st)
      ts = self.P.targets(n)
      if not ts:
        if not c:
          self.throws.append(st)
        return st
      if any(self.may_throw(t) for t in ts):
        self.throws.append(st)
      return self.meet([self.call(t, st) for t in ts])
    if k == 'Ctor':
      for c in children(n):
        st = self.ev(c, st)
      ts = self.P.targets(n)
      for t in ts:
        self.call(t, st)
      return st
    for c in children(n):
      st = self.ev(c, st) if c['k'] not in ('Decl', 'Var', 'Block') else self.ex(c, st)
      if st is None:
        return None
    return st

  def call(self, f, st):
    # a callee sees the same object
    return self.visit(f, st)

  def store(self, e, st):
    p = self.parts(e)
    if p and p[1]:
      return st | p[0]
    if p:
      self.read(p[0], st, e)
      return st
    return self.ev(e, st)

"""C14: recursions are limited."""
from .common import *

TECHNIQUE = 'call-graph cycle analysis with a ranking argument per cycle: path-sensitive interval analysis of the depth counters and re-entrancy flags at every recursive call site'
NOTE = ('Every cycle of the call graph of configuration parsing and key processing is cut by call sites at which a counter or flag is raised and bounded by a constant, '
  'or the nesting is shown to end after a few levels. The growth of text by nested macros within the depth bound is not limited.')

LIMIT = 1000
NESTING = 8


def check(ctx):
  ctx.rule('ranked', 'every cycle of calls contains a call made only with a depth counter or re-entrancy flag raised, within a constant bound and never lowered within the cycle')
  ctx.rule('nesting', 'cycles without a counter end after a constant number of levels')
  ctx.rule('reported', 'exceeding the depth bound of the configuration parser is reported by an exception')
  positive()
  n = 0
  P = load('keymapper')
  roots = [f for f in P.funcs.values() if f.get('cls') in ('ParseConfig', 'ParseKeySequence') and f['n'] == 'operator()' and not f.get('lambda')]
  if len(roots) != 2:
    raise AnalysisError('entries of the parsers not found')
  n += program(ctx, P, roots, True)
  P = load('keymapperd')
  roots = [f for f in P.funcs.values() if f.get('cls') in ('ServerState', 'MultiStage', 'Stage') and not f.get('lambda')]
  if len(roots) < 30:
    raise AnalysisError('key processing not found')
  n += program(ctx, P, roots, False)
  ctx.need('cycles of calls', n, 2)


def components(nodes, edges):
  """strongly connected components which contain a cycle (Tarjan, iterative)"""
  index, low, on, stack, out = {}, {}, set(), [], []
  for r in nodes:
    if r in index:
      continue
    work = [(r, iter(edges.get(r, ())))]
    index[r] = low[r] = len(index)
    stack.append(r)
    on.add(r)
    while work:
      v, it = work[-1]
      for w in it:
        if w not in index:
          index[w] = low[w] = len(index)
          stack.append(w)
          on.add(w)
          work.append((w, iter(edges.get(w, ()))))
          break
        if w in on:
          low[v] = min(low[v], index[w])
      else:
        work.pop()
        if work:
          u = work[-1][0]
          low[u] = min(low[u], low[v])
        if low[v] == index[v]:
          c = set()
          while True:
            w = stack.pop()
            on.discard(w)
            c.add(w)
            if w == v:
              break
          if len(c) > 1 or v in edges.get(v, ()):
            out.append(c)
  return out


def positive():
  if components('abcd', {'a': 'b', 'b': 'c', 'c': 'ad', 'd': 'd'}) != [{'d'}, {'a', 'b', 'c'}]:
    raise AnalysisError('cycle detection broken')


def calls(P, f, fs):
  """functions called by f, lambdas being part of the function creating them"""
  out, seen, work = set(), set(), [f]
  while work:
    for _, t in P.edges(work.pop()):
      if t.get('lambda'):
        if t['id'] not in seen:
          seen.add(t['id'])
          work.append(t)
      elif t['id'] in fs:
        out.add(t['id'])
  return out


def program(ctx, P, roots, config):
  fs = {}
  for r in roots:
    fs.update(P.reach(r))
    fs[r['id']] = r
  edges = {i: calls(P, f, fs) for i, f in fs.items() if not f.get('lambda')}
  ctx.fns.update(f['q'] for f in fs.values())
  n = 0
  for c in components(list(edges), edges):
    n += 1
    Cycle(ctx, P, {i: fs[i] for i in c}, edges, config).decide()
  return n


def mems(n):
  """members named by an expression"""
  return [x['q'] for x in walk(n) if x['k'] == 'Mem' and x.get('q')]


def leaves(n):
  """whether a statement leaves the function"""
  return n['k'] in ('Ret', 'Throw') or n['k'] == 'Block' and bool(n['s']) and leaves(n['s'][-1])


class Cycle:
  def __init__(self, ctx, P, fs, edges, config):
    self.ctx, self.P, self.fs, self.config = ctx, P, fs, config
    self.edges = {i: edges[i] & set(fs) for i in fs}
    self.memo = {}
    # members which may refer to a counter
    self.refs = {c.split('::')[-1] + '::' + x['n'] for c, r in P.records.items() if r.get('fields') and not c.startswith('std::')
      for x in r['fields'] if (x['t'] or {}).get('ref') and (x['t'] or {}).get('bits')}
    self.name = ', '.join(sorted({f['n'] for f in fs.values()}))

  def fields(self):
    """members compared with a constant and flags which are set"""
    P, limits, flags = self.P, [], []
    classes = {f.get('cls') for f in self.fs.values()}
    self.types = types = {c + '::' + x['n']: x['t'] or {} for c in classes if c in P.records for x in P.records[c]['fields']}
    # the functions of the cycle and their helpers
    own = dict(self.fs)
    for f in self.fs.values():
      own.update((t['id'], t) for n, t in P.edges(f) if not any(t['id'] in P.reach(u) for _, u in P.edges(t)) and not (callee(n) or {}).get('noreturn'))
    for f in own.values():
      tests = []
      for n in P.nodes(f):
        if n['k'] == 'Bin' and n['op'] in ('<', '<=', '>', '>=', '==', '!='):
          for a, b in ((n['a'], n['b']), (n['b'], n['a'])):
            if not mems(b):
              limits += [q for q in mems(a) if q in types]
        if n['k'] == 'If' and leaves(n['a']):
          tests += mems(n['c'])
      flags += [q for q in tests if q in types and types[q].get('bool')]
    return sorted({q for q in limits if types[q].get('bits', 0) > 0 and not types[q].get('bool')}) + sorted(set(flags))

  def decide(self):
    P, ctx = self.P, self.ctx
    raised = set()
    for q in self.fields():
      r = self.counter(q)
      raised |= r
      left = {i: {j for j in js if (i, j) not in raised} for i, js in self.edges.items()}
      if not components(list(self.fs), left):
        break
    left = {i: {j for j in js if (i, j) not in raised} for i, js in self.edges.items()}
    rest = components(list(self.fs), left)
    for f in self.fs.values():
      for j in self.edges[f['id']]:
        t = self.fs[j]
        cyc = [c for c in rest if f['id'] in c and j in c]
        where = [n for n, x in P.edges(f) if x['id'] == j]
        if not cyc:
          ctx.ob('ranked', 'call of %s by %s' % (t['q'], f['q']), True, P.where(f, where[0] if where else None))
    for c in rest:
      if self.config:
        f = min((self.fs[i] for i in c), key=lambda f: (f['q'], f['l']))
        ctx.ob('ranked', 'recursion of %s' % f['q'], False, P.where(f), self.unbounded(c))
      else:
        self.nesting(c)

  def unbounded(self, comp):
    return 'unbounded recursion of %s: no counter or flag is raised within a bound on every cycle of calls' % ', '.join(sorted({self.fs[i]['q'] for i in comp}))

  def touches(self, f, q):
    """whether f or functions outside of the cycle called by it use q or change numbers through references"""
    P = self.P
    if (f['id'], q) in self.memo:
      return self.memo[f['id'], q]
    r = self.memo[f['id'], q] = self._touches(f, q)
    return r

  def _touches(self, f, q):
    P = self.P
    seen, work = {f['id']}, [f]
    while work:
      g = work.pop()
      for n in P.nodes(g):
        if n['k'] == 'Mem' and (n.get('q') == q or g is f and '::'.join((n.get('q') or '').split('::')[-2:]) in self.refs):
          return True
      for n, t in P.edges(g):
        if t['id'] not in seen and t['id'] not in self.fs and not (callee(n) or {}).get('noreturn'):
          seen.add(t['id'])
          work.append(t)
    return False

  def counter(self, q):
    """calls at which q is raised and bounded, none when q may be lowered within the cycle"""
    P, ctx = self.P, self.ctx
    cls = q.rsplit('::', 1)[0]
    raised, bad, reports = set(), None, []
    for f in self.fs.values():
      if not self.touches(f, q):
        continue
      if f.get('cls') != cls:
        return set()
      obj = mk('OBJ', cls)
      loc = F(obj, q)
      start = mk('PARAM', 'level', q, 0)
      seen = {}
      low = []

      def on_call(I, st, ev):
        ts = [t for t in P.targets(ev.node) if t['id'] in self.fs]
        if not ts:
          if (callee(ev.node) or {}).get('noreturn'):
            I.throws.append((st, 'std::runtime_error'))
            return []
          return None
        v = I.load(st, loc)
        d = I.interval(st, sub(v, start))
        h = I.interval(st, v)
        for t in ts:
          lo, hi = seen.get(t['id'], (None, None))
          a = d[0][0] if d else 0
          b = h[-1][1] if h else 0
          seen[t['id']] = (a if lo is None else min(lo, a), b if hi is None else max(hi, b))
        for t in ts:
          I.havoc_fields(st, P.mods(t) - {q})
        out = fresh('result')
        I.settype(out, (callee(ev.node) or {}).get('ret') or {})
        return [(st, out)]

      def wanted(n):
        return n['k'] == 'Mem' and n.get('q') == q or n['k'] == 'Call' and any(t['id'] in self.fs for t in P.targets(n))
      I = Interp(P, Spec(interest=wanted, on_call=on_call, cap=60, retcap=60,
        inline=lambda I, g: self.touches(g, q)))
      I.tr[start] = ((0, 1 if self.types[q].get('bool') else 1 << 30),)

      def setup(I, st, args):
        st.env[loc] = start
      for st, v in I.run(f, (), obj=obj, setup=setup):
        d = I.interval(st, sub(I.load(st, loc), start))
        if d and d[0][0] < 0:
          bad = f
        reports.append((f, I.interval(st, start)))
      ctx.used(I)
      tops = []
      for j, (a, b) in seen.items():
        if a < 0:
          bad = f
        if a >= 1 and b <= LIMIT:
          raised.add((f['id'], j))
          tops.append(b)
      if self.config and tops and not bad:
        over = [r for g, r in reports if g is f and r and r[0][0] >= max(tops)]
        ctx.ob('reported', 'bound %d of %s in %s' % (max(tops), q.rsplit('::', 1)[1], f['q']), not over, P.where(f),
          '%s goes on without an error beyond the depth bound' % f['q'])
    return set() if bad else raised

  def nesting(self, comp):
    P, ctx = self.P, self.ctx
    heads = [self.fs[i] for i in comp]
    # calls made with arbitrary state, then calls made by these, ...
    for f in heads:
      cls = f.get('cls')
      obj = mk('OBJ', cls) if cls and not f.get('static') else None
      got = []

      def on_call(I, st, ev):
        ts = [t for t in P.targets(ev.node) if t['id'] in self.fs]
        if not ts:
          return None
        for t in ts:
          if t['id'] in comp:
            got.append((t, st.copy(), ev.obj if ev.obj is not None else obj, list(ev.args), ev.node))
          I.havoc_fields(st, P.mods(t))
        return [(st, fresh('result'))]
      I = Interp(P, Spec(interest=lambda n: n['k'] == 'Call' and any(t['id'] in comp for t in P.targets(n)), on_call=on_call, cap=40, retcap=40,
        inline=lambda I, g: True if g.get('cls') == cls and not (P.reach(g).keys() & set(comp)) else None))
      I.run(f, (), obj=obj)
      level, where, calls = 0, None, 0
      work = got[:]
      while work and level < NESTING:
        level += 1
        got.clear()
        for t, st, o, args, n in work:
          calls += 1
          where = n
          I.invoke(t, st, o, args, {'_i': ('level', level, n['_i']), 'l': t['l'], '_f': t['id'], 'k': 'entry'})
        work = got[:]
        if len(work) > 400:
          break
      ctx.used(I)
      ctx.ob('nesting', 'nesting of %s' % f['q'], not work, I.where(where) if where else P.where(f),
        self.unbounded(comp))

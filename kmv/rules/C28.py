"""C28: durations and wheel deltas are limited, not wrapped."""
from .common import *
from .C26 import subterms
from ..stdmodel import OPT_NONE

TECHNIQUE = 'interprocedural interval analysis of event values over the clang AST (every store to the value field, followed to the callers providing it)'
NOTE = ('Arithmetic and conversions which may not fit their type are tracked as wrapped values. The scaling of deltas of low-resolution wheels by the device reader '
  'happens before an event is converted and is not covered.')

FIELD = 'KeyEvent::value'


def check(ctx):
  ctx.rule('value', 'a stored event value is within the range of the field and does not result from a wrapped computation')
  for name, least in (('keymapper', 2), ('keymapperd', 4)):
    P = load(name)
    part(ctx, P, name, least)


def width(P):
  r = [f for f in P.records['KeyEvent']['fields'] if f['n'] == 'value']
  if len(r) != 1:
    raise AnalysisError('value of events not found')
  b = r[0].get('bits') or (r[0]['t'] or {}).get('bits')
  if (r[0]['t'] or {}).get('signed') or not b:
    raise AnalysisError('type of the value of events not understood')
  return b


def sinks(P, f):
  """expressions storing a value in an event"""
  for n in P.nodes(f):
    if n['k'] == 'Ctor' and n['q'] == 'KeyEvent' and len(n['a']) > 2:
      yield n
    elif n['k'] == 'Call':
      c = callee(n)
      if c and c['q'].startswith('std::') and c['n'].startswith(('emplace', 'make_')) and len(n['a']) > 2 and 'KeyEvent' in c['id']:
        yield n
    elif n['k'] in ('Bin', 'Un') and n['a']['k'] == 'Mem' and n['a'].get('q') == FIELD:
      if n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>=') or '++' in n['op'] or '--' in n['op']:
        yield n


def part(ctx, P, name, least):
  F = Flow(ctx, P)
  n = 0
  for f in list(P.funcs.values()):
    if f.get('cls') == 'KeyEvent' or f.get('implicit'):
      continue
    for node in sinks(P, f):
      n += 1
      F.sink = '%s line %s' % (P.where(f), node.get('l'))
      F.store(f, node)
  ctx.need('expressions storing event values in %s' % name, n, least)
  ctx.need('analysed functions of %s' % name, F.roots, least)


class Flow:
  """values reaching the field, from stores back to parameters, arguments, variables and results of calls"""
  def __init__(self, ctx, P):
    self.ctx, self.P = ctx, P
    self.top = (1 << width(P)) - 1
    self.callers = P.callers()
    self.roots = 0
    self.done = {}

  def once(self, *key):
    if key in self.done:
      return False
    self.done[key] = True
    return True

  def report(self, ok, where, msg):
    self.ctx.ob('value', 'value at %s fits' % where, ok, where, msg)

  def inline(self, I, f):
    t = f.get('ret') or {}
    if f.get('cls') == 'KeyEvent' or t.get('bits') and not t.get('bool') and not t.get('enum'):
      return True
    if bare(t.get('rec') or '') in ('std::optional', 'std::chrono::duration', 'std::pair') and 'KeyEvent' not in t.get('s', ''):
      return True

  def lossy(self, I, st, t):
    if t.k in ('cast', 'f2i'):
      return True
    if t.k in ('bitand', 'mod'):
      # a remainder of a value which is not known to be smaller
      return not any(isc(c) and c.a[0] > 0 and isubset(I.interval(st, x), ((0, c.a[0] - (t.k == 'mod')),)) for x, c in ((t.a[0], t.a[1]), (t.a[1], t.a[0])))
    return False

  def judge(self, I, st, fn, node, v, climb):
    lossy = any(self.lossy(I, st, x) for x in subterms(v))
    ok = isubset(I.interval(st, v), ((0, self.top),)) and not lossy
    where = at(I, node) if node.get('k') != 'entry' else self.P.where(fn)
    if not ok and not lossy and fn['n'] != 'to_key_event':
      ps = {x.a[2] for x in subterms(v) if x.k == 'PARAM' and x.a[0] == fn['q']}
      if ps:
        # limited to what a parameter provides
        climb.update(ps)
        return
      if fn.get('lambda'):
        climb.add(None)
        return
    self.report(ok, where, 'a value which does not fit the field is wrapped instead of limited (value of the event stored in %s)' % self.sink)

  def run(self, fn, spec, what):
    self.roots += 1
    I = Interp(self.P, spec)
    I.run(fn, (), obj=mk('OBJ', fn['cls'], 'this') if fn.get('cls') else None)
    self.ctx.used(I)

  def store(self, fn, node, arg=None):
    """value stored by an expression (or given as an argument of a call) of a function"""
    if not self.once('store', fn['id'], node['_i'], arg):
      return
    climb, hit = set(), [0]

    def on_call(I, st, ev):
      if ev.node is node:
        if arg is None:
          st.mon = ('store',)
        else:
          hit[0] += 1
          self.judge(I, st, fn, node, self.unwrap(I, st, I.rv(st, ev.args[arg])), climb)

    def on_write(I, st, loc, v, n):
      if arg is not None or loc.k != 'F' or loc.a[1] != FIELD or n is not node and st.mon != ('store',):
        return
      st.mon = ()
      hit[0] += 1
      self.judge(I, st, fn, node, I.raw, climb)
    self.run(fn, Spec(interest=lambda n: n is node, on_call=on_call, on_write=on_write, inline=self.inline, wrap=True), node)
    if not hit[0]:
      raise AnalysisError('value at line %s is not reached from %s' % (node.get('l'), fn['q']))
    self.climb(fn, climb, lambda g: self.store(g, node, arg))

  def unwrap(self, I, st, v):
    if v.k == 'rec' and any(k == VAL for k, _ in v.a[1]):
      return dict(v.a[1])[VAL]
    return v

  def result(self, fn):
    """value returned by a function"""
    if not self.once('result', fn['id']):
      return
    climb, hit = set(), [0]

    def on_leave(I, st, f, v, node):
      if f is not fn or node.get('k') != 'entry':
        return
      hit[0] += 1
      if v is OPT_NONE or v.k == 'rec' and dict(v.a[1]).get(HAS) is C0:
        return
      v = self.unwrap(I, st, v)
      self.judge(I, st, fn, node, v, climb)

    def wrapped(I, st, v, node):
      self.report(False, at(I, node), 'a number may exceed its type before it is limited (value of the event stored in %s)' % self.sink)
    self.run(fn, Spec(on_leave=on_leave, inline=self.inline, wrap=True, wrapped=wrapped), None)
    if not hit[0]:
      raise AnalysisError('result of %s not found' % fn['q'])
    self.climb(fn, climb, None)

  def climb(self, fn, params, again):
    """continue with the arguments given for parameters"""
    if not params:
      return
    P = self.P
    cs = self.callers.get(fn['id'], [])
    calls = [(g, x) for g, x in cs if x['k'] in ('Call', 'Ctor')]
    if fn.get('lambda'):
      if None in params or not calls:
        up = [g for g, x in cs if x['k'] == 'Lambda']
        if again and None in params:
          for g in up:
            again(g)
          return
        calls += list(object_calls(P, fn))
    elif [x for g, x in cs if x['k'] == 'Ref']:
      self.report(False, P.where(fn), 'a function storing a value which may not fit the field is called through a pointer')
      return
    if not calls:
      self.report(False, P.where(fn), 'a value which may not fit the field is stored in %s' % self.sink)
      return
    for g, x in calls:
      for i in params:
        if i is not None and i < len(x['a']):
          self.expr(g, x['a'][i], x, i)

  def expr(self, g, e, call, arg):
    """value of an expression given as an argument"""
    if not self.once('expr', g['id'], e['_i'], arg):
      return
    P = self.P
    if not self.resolve(g, e, set()):
      self.store(g, call, arg)

  def resolve(self, g, e, seen):
    """follow simple expressions; False if the function has to be analysed"""
    P = self.P
    k = e['k']
    where = '%s line %s' % (P.where(g), e.get('l'))
    if 'cv' in e or k in ('Int', 'Enum'):
      v = e.get('cv', e.get('v'))
      self.report(0 <= v <= self.top, where, 'the constant %s does not fit the field' % v)
      return True
    if k == 'Mem':
      if e.get('q') == FIELD:
        return True
      return False
    if k == 'Cast':
      a, t = (e['a'].get('t') or {}), (e.get('t') or {})
      if e['ck'] == 'IntegralCast' and (a.get('bits') or 99) >= (t.get('bits') or 0):
        return False
      return self.resolve(g, e['a'], seen)
    if k == 'Cond':
      return self.resolve(g, e['a'], seen) and self.resolve(g, e['b'], seen)
    if k == 'Call':
      c = callee(e)
      if c and bare(c.get('cls') or '') == 'std::optional' and c['n'] in ('operator*', 'value') and not e['a']:
        return self.resolve(g, e['o'], seen)
      ts = P.targets(e)
      if ts and not c['q'].startswith('std::'):
        for t in ts:
          self.result(t)
        return True
      return False
    if k == 'Ref' and e.get('dk') == 'var':
      if e['d'] in seen:
        return True
      seen = seen | {e['d']}
      n = 0
      for x in P.nodes(g):
        if x['k'] == 'Var' and x.get('d') == e['d']:
          if not x.get('init') or (x.get('t') or {}).get('ref') or not self.resolve(g, x['init'], seen):
            return False
          n += 1
        elif x['k'] == 'Bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>=') and x['a']['k'] == 'Ref' and x['a'].get('d') == e['d']:
          if x['op'] != '=' or not self.resolve(g, x['b'], seen):
            return False
        elif x['k'] == 'Un' and x['op'] in ('&', 'pre++', 'pre--', 'post++', 'post--') and x['a']['k'] == 'Ref' and x['a'].get('d') == e['d']:
          return False
        elif x['k'] == 'Call' and x.get('o') is not None and x['o']['k'] == 'Ref' and x['o'].get('d') == e['d'] and callee(x) and \
            callee(x)['n'] in ('operator=', 'emplace', 'swap'):
          return False
      return n > 0
    return False


def object_calls(P, fn):
  """calls through a function object with the parameters of a lambda"""
  ps = [(p['t'] or {}).get('b') for p in fn['params']]
  for g in P.funcs.values():
    for x in P.nodes(g):
      c = callee(x) if x['k'] == 'Call' else None
      if c and c['n'] == 'operator()' and c['q'].startswith('std::function') and [(p or {}).get('b') for p in c.get('pt') or []] == ps:
        yield g, x

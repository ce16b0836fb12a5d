"""Abstract interpreter over the extracted AST.

States map access paths to symbolic terms and terms to integer interval sets;
a rule (monitor) attaches a finite property state.  Functions of the program are
inlined context-sensitively, loops are iterated to a fixpoint over the monitor
state with joins of the symbolic part, calls that cannot concern the rule are
summarised by their modification set.  No concrete execution, no solver."""
import functools
import itertools
from .facts import AnalysisError
from .program import callee, walk

INF = float('inf')
FULL = ((-INF, INF),)


# ------------------------------------------------------------------ intervals
def ihull(a):
  return (a[0][0], a[-1][1]) if a else None


def iand(a, b):
  if a is FULL:
    return b
  if b is FULL:
    return a
  out = []
  for l1, h1 in a:
    for l2, h2 in b:
      l, h = max(l1, l2), min(h1, h2)
      if l <= h:
        out.append((l, h))
  return tuple(sorted(out))


def ior(a, b):
  l = sorted(a + b)
  out = []
  for lo, hi in l:
    if out and lo <= out[-1][1] + 1:
      out[-1] = (out[-1][0], max(out[-1][1], hi))
    else:
      out.append((lo, hi))
  return tuple(out)


def inot(a):
  out, prev = [], -INF
  for lo, hi in a:
    if lo > prev:
      out.append((prev, lo - 1))
    prev = hi + 1
  if prev < INF:
    out.append((prev, INF))
  return tuple((l, h) for l, h in out if l <= h and not (l == INF or h == -INF))


def isubset(a, b):
  return iand(a, b) == tuple(a)


def iadd(a, b):
  if len(a) * len(b) > 64:
    a, b = (ihull(a),), (ihull(b),)
  out = ()
  for l1, h1 in a:
    for l2, h2 in b:
      out = ior(out, ((l1 + l2, h1 + h2),))
  return out


def imul(a, k):
  if k == 0:
    return ((0, 0),)
  if k == 1:
    return a
  r = tuple(sorted((min(l * k, h * k), max(l * k, h * k)) for l, h in a))
  return r


# ---------------------------------------------------------------------- terms
class T:
  __slots__ = ('k', 'a', 'id', 'syms')
  tab = {}
  ctr = itertools.count(1)

  def __repr__(self):
    return fmt(self)

  def __lt__(self, o):
    return self.id < o.id


EMPTY = frozenset()


JOINED = {}


def joined_epoch(tag, a, b):
  """name of the epoch after a join; interned, nested tuples would grow exponentially"""
  return JOINED.setdefault((tag, a, b), ('j', len(JOINED)))


def mk(k, *a):
  key = (k,) + a
  t = T.tab.get(key)
  if t is None:
    t = T()
    t.k = k
    t.a = a
    t.id = next(T.ctr)
    s = EMPTY
    for x in a:
      if isinstance(x, T):
        if x.syms:
          s = s | x.syms if s else x.syms
      elif isinstance(x, tuple):
        for y in x:
          if isinstance(y, T):
            if y.syms:
              s = s | y.syms
          elif isinstance(y, tuple):
            for z in y:
              if isinstance(z, T) and z.syms:
                s = s | z.syms
    if k in ('phi', 'new'):
      s = s | {t}
    t.syms = s
    T.tab[key] = t
  return t


def fmt(t, depth=0):
  if not isinstance(t, T):
    return str(t)
  if depth > 6:
    return '…'
  if t.k == 'c':
    return str(t.a[0])
  if t.k == 's':
    return repr(t.a[0])
  if t.k == 'F':
    return '%s.%s' % (fmt(t.a[0], depth + 1), t.a[1].split('::')[-1])
  if t.k == 'E':
    return '%s[%s]' % (fmt(t.a[0], depth + 1), fmt(t.a[1], depth + 1))
  if t.k == 'G':
    return str(t.a[0]).split('@')[-1]
  if t.k == 'V':
    return 'v%s' % (t.a[0][1] if isinstance(t.a[0], tuple) else t.a[0],)
  if t.k == 'ini':
    return fmt(t.a[0], depth + 1) + '₀'
  if t.k == 'new':
    return '#%s(%s)' % (t.a[0], t.a[1])
  if t.k == 'fld':
    return '%s.%s' % (fmt(t.a[0], depth + 1), t.a[1].split('::')[-1])
  if t.k == 'lin':
    return '(' + '+'.join([str(t.a[0])] + ['%s*%s' % (c, fmt(x, depth + 1)) for x, c in t.a[1]]) + ')'
  return '%s(%s)' % (t.k, ','.join(fmt(x, depth + 1) if isinstance(x, T) else
    ('(' + ','.join(fmt(y, depth + 1) if isinstance(y, T) else str(y) for y in x) + ')' if isinstance(x, tuple) else str(x)) for x in t.a))


def C(n):
  return mk('c', int(n))


C0, C1 = C(0), C(1)
UNDEF = mk('undef')
ZERO = mk('zero')
VOID = mk('void')

_fresh = itertools.count(1)


def fresh(hint=''):
  return mk('new', next(_fresh), hint)


def isc(t):
  return t.k == 'c'


def linparts(t):
  if t.k == 'c':
    return t.a[0], ()
  if t.k == 'lin':
    return t.a[0], t.a[1]
  return 0, ((t, 1),)


def mklin(k, parts):
  d = {}
  for t, c in parts:
    d[t] = d.get(t, 0) + c
  l = tuple(sorted(((t, c) for t, c in d.items() if c), key=lambda x: x[0].id))
  if not l:
    return C(k)
  if k == 0 and len(l) == 1 and l[0][1] == 1:
    return l[0][0]
  return mk('lin', k, l)


def add(a, b, sign=1):
  ka, pa = linparts(a)
  kb, pb = linparts(b)
  return mklin(ka + sign * kb, tuple(pa) + tuple((t, sign * c) for t, c in pb))


def sub(a, b):
  return add(a, b, -1)


def scale(a, k):
  ka, pa = linparts(a)
  return mklin(ka * k, tuple((t, c * k) for t, c in pa))


def neg(t):
  if t.k == 'not':
    return t.a[0]
  if t.k == 'c':
    return C0 if t.a[0] else C1
  return mk('not', t)


def is_bool(t):
  return t.k in ('le', 'eq0', 'not', 'and', 'or') or (t.k == 'c' and t.a[0] in (0, 1))


def le0(d):
  """d <= 0"""
  if isc(d):
    return C(d.a[0] <= 0)
  return mk('le', d)


def eq(a, b):
  if a is b:
    return C1
  if a.k == 's' and b.k == 's':
    return C(a.a[0] == b.a[0])
  if isc(b) and is_bool(a) and not isc(a):
    return neg(a) if b.a[0] == 0 else (a if b.a[0] == 1 else C0)
  if isc(a) and is_bool(b) and not isc(b):
    return eq(b, a)
  if b.k == 'zero':
    b = C0
  if a.k == 'zero':
    a = C0
  if a.k == 'it' and b.k == 'it' and a.a[0] is b.a[0]:
    a, b = a.a[1], b.a[1]
  for x, y in ((a, b), (b, a)):
    if x.k == 'addr' and isc(y):
      return C0
    if x.k == 'ptrto' and isc(y):
      return C0
  d = sub(a, b)
  if isc(d):
    return C(d.a[0] == 0)
  k, p = linparts(d)
  if p[0][1] < 0:
    d = scale(d, -1)
  return mk('eq0', d)


def cmp(op, a, b):
  if op == '==':
    return eq(a, b)
  if op == '!=':
    return neg(eq(a, b))
  if a.k == 'it' and b.k == 'it' and a.a[0] is b.a[0]:
    a, b = a.a[1], b.a[1]
  if a.k == 'zero':
    a = C0
  if b.k == 'zero':
    b = C0
  if op == '<':
    return le0(add(sub(a, b), C1))
  if op == '<=':
    return le0(sub(a, b))
  if op == '>':
    return le0(add(sub(b, a), C1))
  if op == '>=':
    return le0(sub(b, a))
  raise AnalysisError('cmp ' + op)


def mentions(t, pred):
  seen, st = set(), [t]
  while st:
    x = st.pop()
    if not isinstance(x, T):
      if isinstance(x, tuple):
        st.extend(x)
      continue
    if x.id in seen:
      continue
    seen.add(x.id)
    if pred(x):
      return True
    st.extend(x.a)
  return False


def subterms(t):
  seen, st = set(), [t]
  while st:
    x = st.pop()
    if isinstance(x, tuple):
      st.extend(x)
    elif isinstance(x, T) and x.id not in seen:
      seen.add(x.id)
      yield x
      st.extend(x.a)


# ------------------------------------------------------------------ locations
def V(d, frame):
  return mk('V', d, frame)


def F(base, q):
  return mk('F', base, q)


def E(base, idx):
  return mk('E', base, idx)


def parent(l):
  return l.a[0] if l.k in ('F', 'E') else None


def root(l):
  while l.k in ('F', 'E'):
    l = l.a[0]
  return l


def under(l, p):
  while l is not None:
    if l is p:
      return True
    l = parent(l) if isinstance(l, T) and l.k in ('F', 'E') else None
  return False


def deref(v):
  if v.k == 'addr':
    return v.a[0]
  if v.k == 'it':
    return E(v.a[0], v.a[1])
  if v.k == 'ptrto':
    return v.a[0]
  return mk('D', v)


def addr(l):
  if l.k == 'D':
    return l.a[0]
  return mk('addr', l)


def whole(l):
  """the array a pointer to an element gives access to"""
  return l.a[0] if l.k == 'E' else l


def fieldq(l):
  """innermost field name on the path of a location, or None"""
  while isinstance(l, T):
    if l.k == 'F':
      return l.a[1]
    if l.k == 'E':
      l = l.a[0]
    else:
      return None


def fields_of(l):
  out = []
  while isinstance(l, T):
    if l.k == 'F':
      out.append(l.a[1])
      l = l.a[0]
    elif l.k == 'E':
      l = l.a[0]
    elif l.k == 'D':
      v = l.a[0]
      if isinstance(v, T) and v.k == 'ini':
        l = v.a[0]
      elif isinstance(v, T) and v.k in ('fld', 'elt', 'mut'):
        l = v
      else:
        break
    elif l.k == 'fld':
      out.append(l.a[1])
      l = l.a[0]
    elif l.k in ('elt', 'mut'):
      l = l.a[0]
    elif l.k == 'ini':
      l = l.a[0]
    else:
      break
  return out


# --------------------------------------------------------------------- states
class State:
  __slots__ = ('env', 'facts', 'mon', 'eps')

  def __init__(self, env=None, facts=None, mon=None, eps=None):
    self.env = env if env is not None else {}
    self.facts = facts if facts is not None else {}
    self.mon = mon
    self.eps = eps if eps is not None else {}

  def copy(self):
    return State(dict(self.env), dict(self.facts), self.mon, dict(self.eps))

  def key(self):
    return (self.mon, frozenset(self.env.items()), frozenset(self.facts.items()))


class Out:
  """outcome of executing statements"""
  __slots__ = ('norm', 'brk', 'cont', 'ret', 'goto')

  def __init__(self, norm=None):
    self.norm = norm or []
    self.brk = []
    self.cont = []
    self.ret = []
    self.goto = []

  def absorb(self, o):
    self.brk += o.brk
    self.cont += o.cont
    self.ret += o.ret
    self.goto += o.goto


class Rule:
  """monitor interface; all hooks optional"""
  retcap = 1            # outcomes of one call kept per monitor state and result
  cap = 12              # disjuncts kept per program point before joining
  small = 90            # inline any non-recursive function up to this many AST nodes
  max_depth = 40
  unroll = 0            # iterations of loops with decided condition kept apart

  def call(self, I, st, ev):
    return None

  def write(self, I, st, loc, val, node):
    pass

  def load(self, I, st, loc):
    return None

  def enter(self, I, st, fn, node):
    pass

  def leave(self, I, st, fn, val, node):
    pass

  def interesting(self, P, n):
    """AST node that makes the function containing it relevant (forces inlining)"""
    return False

  def inline(self, I, fn):
    return None

  def wrapped(self, I, st, val, node):
    """arithmetic which may exceed its type (called for rules with wrap set)"""


class Call:
  """a call event handed to the rule"""
  __slots__ = ('node', 'c', 'q', 'name', 'cls', 'obj', 'args', 'largs', 'targets', 'fn')

  def __repr__(self):
    return 'Call(%s, obj=%s, args=%s)' % (self.q, self.obj, self.args)


@functools.lru_cache(None)
def bare(q):
  """strip template arguments from a qualified name"""
  out, d, i = [], 0, 0
  while i < len(q):
    if q.startswith('operator', i) and (i == 0 or q[i - 1] in ':'):
      if d == 0:
        rest = q[i + 8:]
        j = 0
        while j < len(rest) and rest[j] in '<>=!-+*/&|^%~[]()':
          j += 1
        if j:
          out.append('operator' + rest[:j])
          i += 8 + j
          continue
        out.append('operator')
        i += 8
        continue
    ch = q[i]
    if ch == '<':
      d += 1
    elif ch == '>':
      d -= 1
    elif d == 0:
      out.append(ch)
    i += 1
  return ''.join(out).replace('std::__cxx11::', 'std::')


class Interp:
  def __init__(self, P, rule):
    self.P = P
    self.rule = rule
    self.stack = []
    self.frames = {}
    self.framectr = itertools.count(1)
    self.tr = {}
    self.throws = []
    self.loopdepth = 0
    self.fn_inlined = {}
    self._refs = None
    self.n_paths = 0
    self.steps = 0
    self.max_steps = 6000000
    self._rel = {}
    self._size = {}
    self._thr = {}
    self.where_stack = []
    from . import stdmodel
    self.std = stdmodel.StdModel(self)
    for g in P.globals.values():
      pass

  # -------------------------------------------------------------- diagnostics
  def where(self, n):
    f = self.P.funcs.get(n.get('_f')) if n else None
    if f:
      return '%s:%d (%s)' % (self.P.rel(f), n.get('l', 0), f['q'])
    return '?'

  # ------------------------------------------------------------------- ranges
  def typerange(self, t):
    if not t:
      return FULL
    b = t.get('bits')
    if b is None:
      return FULL
    if t.get('bool'):
      return ((0, 1),)
    if t.get('signed'):
      return ((-(1 << (b - 1)), (1 << (b - 1)) - 1),)
    return ((0, (1 << b) - 1),)

  def settype(self, term, t):
    if t and term.k not in ('c', 'lin', 's') and term not in self.tr:
      r = self.typerange(t)
      if r is not FULL:
        self.tr[term] = r

  def interval(self, st, t):
    if t.k == 'c':
      return ((t.a[0], t.a[0]),)
    if t.k in ('le', 'eq0', 'not', 'and', 'or'):
      v = self.truth(st, t)
      return ((0, 1),) if v is None else ((int(v), int(v)),)
    if t.k == 'zero':
      return ((0, 0),)
    if t.k == 'lin':
      k, parts = t.a
      r = ((k, k),)
      for x, c in parts:
        r = iadd(r, imul(self.interval(st, x), c))
      base = mklin(0, parts)
      f = st.facts.get(base)
      if f is not None:
        r = iand(r, iadd(f, ((k, k),)))
      nb = scale(base, -1)
      f = st.facts.get(nb)
      if f is not None:
        r = iand(r, iadd(imul(f, -1), ((k, k),)))
      return r
    r = self.tr.get(t, FULL)
    f = st.facts.get(t)
    if f is not None:
      r = iand(r, f)
    if t.k == 'size':
      r = iand(r, ((0, INF),))
    if t.k == 'cast':
      inner = self.interval(st, t.a[2])
      rng = self.crange(t.a[0], t.a[1])
      if isubset(inner, rng):
        r = iand(r, inner)
      else:
        r = iand(r, rng)
    elif t.k == 'bitand':
      for x in (t.a[0], t.a[1]):
        if isc(x) and x.a[0] >= 0:
          r = iand(r, ((0, x.a[0]),))
    elif t.k == 'min':
      ia, ib = self.interval(st, t.a[0]), self.interval(st, t.a[1])
      if ia and ib:
        (la, ha), (lb, hb) = ihull(ia), ihull(ib)
        r = iand(r, ((min(la, lb), min(ha, hb)),))
    elif t.k == 'max':
      ia, ib = self.interval(st, t.a[0]), self.interval(st, t.a[1])
      if ia and ib:
        (la, ha), (lb, hb) = ihull(ia), ihull(ib)
        r = iand(r, ((max(la, lb), max(ha, hb)),))
    return r

  def crange(self, bits, signed):
    if bits == 1:
      return ((0, 1),)
    return ((-(1 << (bits - 1)), (1 << (bits - 1)) - 1),) if signed else ((0, (1 << bits) - 1),)

  def truth(self, st, t):
    """True/False/None"""
    k = t.k
    if k == 'c':
      return t.a[0] != 0
    if k == 'not':
      v = self.truth(st, t.a[0])
      return None if v is None else not v
    if k == 'and':
      a, b = self.truth(st, t.a[0]), self.truth(st, t.a[1])
      if a is False or b is False:
        return False
      return True if a and b else None
    if k == 'or':
      a, b = self.truth(st, t.a[0]), self.truth(st, t.a[1])
      if a or b:
        return True
      return False if a is False and b is False else None
    if k == 'le':
      i = self.interval(st, t.a[0])
      if not i:
        return None
      if i[-1][1] <= 0:
        return True
      if i[0][0] > 0:
        return False
      f = st.facts.get(t)
      return None
    if k == 'eq0':
      i = self.interval(st, t.a[0])
      if i == ((0, 0),):
        return True
      if not iand(i, ((0, 0),)):
        return False
      return None
    if k == 's':
      return True
    if k in ('addr', 'ptrto', 'lam'):
      return True
    if k == 'zero':
      return False
    i = self.interval(st, t)
    if i == ((0, 0),):
      return False
    if i and not iand(i, ((0, 0),)):
      return True
    return None

  def assume(self, st, t, val):
    """refine st (in place) by t == val; returns False if contradictory"""
    k = t.k
    if k == 'not':
      return self.assume(st, t.a[0], not val)
    tv = self.truth(st, t)
    if tv is not None:
      return tv == val
    if k == 'and':
      if val:
        return self.assume(st, t.a[0], True) and self.assume(st, t.a[1], True)
      if self.truth(st, t.a[0]):
        return self.assume(st, t.a[1], False)
      if self.truth(st, t.a[1]):
        return self.assume(st, t.a[0], False)
      st.facts[t] = ((0, 0),)
      return True
    if k == 'or':
      if not val:
        return self.assume(st, t.a[0], False) and self.assume(st, t.a[1], False)
      if self.truth(st, t.a[0]) is False:
        return self.assume(st, t.a[1], True)
      if self.truth(st, t.a[1]) is False:
        return self.assume(st, t.a[0], True)
      return True
    if k == 'le':
      rng = ((-INF, 0),) if val else ((1, INF),)
      return self.constrain(st, t.a[0], rng)
    if k == 'eq0':
      d = t.a[0]
      ok = self.constrain(st, d, ((0, 0),) if val else inot(((0, 0),)))
      if ok and val and d.k == 'lin' and d.a[0] == 0 and len(d.a[1]) == 2:
        (x, cx), (y, cy) = d.a[1]
        if cx == -cy:
          ix, iy = self.interval(st, x), self.interval(st, y)
          m = iand(ix, iy)
          if not m:
            return False
          if m != ix:
            ok = self.constrain(st, x, m)
          if ok and m != iy:
            ok = self.constrain(st, y, m)
      return ok
    return self.constrain(st, t, inot(((0, 0),)) if val else ((0, 0),))

  def constrain(self, st, d, rng):
    k, parts = linparts(d)
    if not parts:
      return bool(iand(((k, k),), rng))
    rng = iadd(rng, ((-k, -k),))
    if len(parts) == 1:
      t, c = parts[0]
      if c == -1:
        rng = imul(rng, -1)
        rng = tuple(sorted(rng))
      elif c != 1:
        base = mklin(0, parts)
        st.facts[base] = iand(st.facts.get(base, FULL), rng)
        out = []
        for lo, hi in rng:
          a, b = (lo / c, hi / c) if c > 0 else (hi / c, lo / c)
          import math
          a = a if a in (INF, -INF) else math.ceil(a)
          b = b if b in (INF, -INF) else math.floor(b)
          if a <= b:
            out.append((a, b))
        rng = tuple(sorted(out))
      return self._cons1(st, t, rng)
    base = mklin(0, parts)
    if parts[0][1] < 0:
      base = scale(base, -1)
      rng = tuple(sorted(imul(rng, -1)))
    cur = self.interval(st, base)
    new = iand(cur, rng)
    if not new:
      return False
    st.facts[base] = iand(st.facts.get(base, FULL), rng)
    # propagate to single variables when all others are constant intervals
    for x, c in parts:
      if abs(c) != 1:
        continue
      rest = ((0, 0),)
      sgn = 1 if (base.k == 'lin' and dict(base.a[1]).get(x, 0) == c) else -1
      for y, cy in parts:
        if y is not x:
          rest = iadd(rest, imul(self.interval(st, y), cy * sgn))
      if not rest or ihull(rest) == (-INF, INF):
        continue
      lo, hi = ihull(rest)
      nlo, nhi = ihull(new)
      # c*sgn*x = new - rest
      a, b = nlo - hi, nhi - lo
      if c * sgn < 0:
        a, b = -b, -a
      if a != a or b != b:
        continue
      cur = self.interval(st, x)
      nx = iand(cur, ((a, b),))
      if not nx:
        return False
      if nx != cur:
        st.facts[x] = iand(st.facts.get(x, FULL), ((a, b),))
    return True

  def _cons1(self, st, t, rng):
    cur = self.interval(st, t)
    new = iand(cur, rng)
    if not new:
      return False
    if new != cur:
      st.facts[t] = iand(st.facts.get(t, FULL), rng)
      if t.k == 'cast' and isubset(self.interval(st, t.a[2]), self.crange(t.a[0], t.a[1])):
        return self._cons1(st, t.a[2], rng) if t.a[2].k != 'lin' else self.constrain(st, t.a[2], rng)
    return True

  # ------------------------------------------------------------------- memory
  def epochs(self, st, l):
    out = None
    while l.k in ('F', 'E'):
      if l.k == 'F':
        e = st.eps.get(l.a[1])
        if e:
          out = (out or ()) + ((l.a[1], e),)
      l = l.a[0]
    if l.k == 'G':
      e = st.eps.get(l)
      if e:
        out = (out or ()) + ((l, e),)
    return out

  def default(self, st, l):
    k = l.k
    if k == 'F':
      p = l
      while p.k in ('F', 'E'):
        p = p.a[0]
        if p in st.env:
          return self.fld(self.load(st, l.a[0]), l.a[1])
      r = root(l)
      if r.k == 'G' or l.a[0].k == 'E':
        b = self.load(st, l.a[0])
        if b.k in ('rec', 'list', 'zero') or l.a[0].k == 'E':
          return self.fld(b, l.a[1])
      return mk('ini', l, self.epochs(st, l))
    if k == 'D' and l.a[0].k == 's' or k == 'E' and l.a[0].k == 'D' and l.a[0].a[0].k == 's' and isc(l.a[1]):
      # character of a string literal
      i, x = (0, l.a[0].a[0]) if k == 'D' else (l.a[1].a[0], l.a[0].a[0].a[0])
      if 0 <= i <= len(x):
        b = (x + '\0')[i]
        return C(ord(b)) if ord(b) < 128 else mk('ini', l, None)
    if k == 'E':
      return self.elt(self.load(st, l.a[0]), l.a[1])
    if k == 'G':
      v = self.gconst(l)
      if v is not None:
        return v
      return mk('ini', l, self.epochs(st, l))
    return mk('ini', l, None)

  def gconst(self, l):
    g = self.P.globals.get(l.a[0])
    if g is None:
      return None
    if '_gc' in g:
      return g['_gc']
    g['_gc'] = None
    t = g.get('t') or {}
    if t.get('const') and g.get('init'):
      g['_gc'] = self.constval(g['init'])
    return g['_gc']

  def constval(self, n):
    """value of a constant initialiser (or None)"""
    if n is None:
      return None
    if 'cv' in n:
      return C(n['cv'])
    k = n['k']
    if k in ('Int', 'Enum'):
      return C(n['v'])
    if k == 'Str':
      return mk('s', n['v'])
    if k == 'Null':
      return C0
    if k == 'Zero':
      return ZERO
    if k == 'Cast':
      return self.constval(n['a'])
    if k == 'Un' and n['op'] == '-':
      v = self.constval(n['a'])
      return C(-v.a[0]) if v is not None and isc(v) else None
    if k == 'Init':
      vs = []
      for x in n['a']:
        v = self.constval(x)
        vs.append(v if v is not None else fresh('init'))
      t = n.get('t') or {}
      if 'fields' in n and not bare(t.get('rec') or '').startswith('std::'):
        rec = t.get('rec') or ''
        return mk('rec', ZERO, tuple((rec + '::' + f, v) for f, v in zip(n['fields'], vs)))
      if 'fields' in n and len(vs) == 1:   # std::array wrapper
        return vs[0]
      if 'filler' in n or (t.get('array') and t['array'] > len(vs)):
        if t.get('array') and t['array'] <= 4096:
          vs += [ZERO] * (t['array'] - len(vs))
      return mk('list', *vs)
    if k == 'Ctor':
      a = n['a']
      if n.get('cm') and a:
        return self.constval(a[0])
      if len(a) == 1 and a[0]['k'] in ('Str', 'Init'):
        return self.constval(a[0])
      if len(a) == 2 and a[0]['k'] in ('Str', 'Init') and a[1].get('defarg'):
        return self.constval(a[0])
      q = n['q']
      fs = [f for f in self.P.funcs.values() if f['id'] == callee(n)['id']]
      if fs:
        f = fs[0]
        vals = {}
        for i in f.get('inits', []):
          e = i.get('e')
          if e is None or 'fq' not in i:
            return None
          v = self.constval(e)
          if v is None and e['k'] == 'Ref' and e.get('dk') == 'parm':
            for p, arg in zip(f['params'], a):
              if p['d'] == e['d']:
                v = self.constval(arg)
          if v is None and e['k'] == 'Cast' and e['a']['k'] == 'Ref':
            for p, arg in zip(f['params'], a):
              if p['d'] == e['a'].get('d'):
                v = self.constval(arg)
          if v is None:
            return None
          vals[i['fq']] = v
        return mk('rec', ZERO, tuple(vals.items()))
      if not a:
        return mk('list') if bare(q).startswith('std::') else None
      return None
    return None

  def fld(self, v, q):
    while v.k == 'rec':
      for f, x in v.a[1]:
        if f == q or f.split('::')[-1] == q.split('::')[-1] and f.split('::')[-2:-1] == q.split('::')[-2:-1]:
          return x
      v = v.a[0]
    if v.k == 'zero':
      return ZERO
    if v.k == 'c':
      return C0 if v.a[0] == 0 else mk('fld', v, q)
    return mk('fld', v, q)

  def elt(self, v, i):
    if v.k == 'list' and isc(i) and 0 <= i.a[0] < len(v.a):
      return v.a[i.a[0]]
    if v.k == 'app':
      n = self.sizeof(v.a[0])
      if i is n:
        return v.a[1]
      if isc(i) and isc(n) and i.a[0] < n.a[0]:
        return self.elt(v.a[0], i)
    if v.k == 'mut':
      for j, x in v.a[2]:
        if j is i:
          return x
    if v.k == 'slice':
      return self.elt(v.a[0], add(i, v.a[1]))
    if v.k == 's' and isc(i) and 0 <= i.a[0] < len(v.a[0]):
      return C(ord(v.a[0][i.a[0]]))
    if v.k == 'zero':
      return ZERO
    return mk('elt', v, i)

  def load(self, st, l):
    v = st.env.get(l)
    if v is not None:
      return v
    r = self.rule.load(self, st, l)
    if r is not None:
      return r
    return self.default(st, l)

  def load_whole(self, st, l):
    """value of a location including separately written parts"""
    v = self.load(st, l)
    idx = set()
    for k in st.env:
      while k.k in ('E', 'F'):
        if k.a[0] is l:
          if k.k == 'E':
            idx.add(k.a[1])
          break
        k = k.a[0]
    if idx:
      # elements stored separately: fold into a literal list or abstract the contents
      if v.k == 'list' and all(isc(i) and 0 <= i.a[0] < len(v.a) for i in idx):
        return mk('list', *[self.load_whole(st, E(l, C(i))) if C(i) in idx else x for i, x in enumerate(v.a)])
      return mk('mut', self.sizeof(v), v, tuple(sorted(((i, self.load_whole(st, E(l, i))) for i in idx), key=lambda x: x[0].id)))
    over = []
    for k2 in st.env:
      if k2 is not l and k2.k == 'F' and k2.a[0] is l:
        over.append((k2.a[1], None))
    if not over:
      # deeper overlays
      deep = [k2 for k2 in st.env if k2 is not l and k2.k == 'F' and under(k2, l)]
      if not deep:
        return v
      tops = set()
      for d in deep:
        while d.k in ('F', 'E') and d.a[0] is not l:
          d = d.a[0]
        if d.k == 'F':
          tops.add(d.a[1])
      over = [(q, None) for q in tops]
      if not over:
        return v
    else:
      deep = [k2 for k2 in st.env if k2 is not l and k2.k == 'F' and k2.a[0] is not l and under(k2, l)]
      qs = {q for q, _ in over}
      for d in deep:
        while d.k in ('F', 'E') and d.a[0] is not l:
          d = d.a[0]
        if d.k == 'F' and d.a[1] not in qs:
          qs.add(d.a[1])
          over.append((d.a[1], None))
    items = tuple(sorted((q, self.load_whole(st, F(l, q))) for q, _ in over))
    return mk('rec', v, items)

  def kill_under(self, st, l, strict=True):
    env = st.env
    dead = [k for k in env if k.k in ('F', 'E') and k is not l and under(k, l)]
    for k in dead:
      del env[k]

  def write(self, st, l, v, node=None):
    self.kill_under(st, l)
    # writing one element invalidates what is known about possibly equal elements
    p = l
    while p.k in ('F', 'E'):
      if p.k == 'E':
        b, i = p.a
        for k in [k for k in st.env if k is not l and k.k in ('F', 'E')]:
          x = k
          while x.k in ('F', 'E'):
            if x.k == 'E' and x.a[0] is b and x.a[1] is not i:
              if not (isc(x.a[1]) and isc(i)) and self.truth(st, eq(x.a[1], i)) is not False:
                st.env[k] = fresh('alias')
              break
            x = x.a[0]
      p = p.a[0]
    b = self.fieldbits(l)
    self.raw = v
    if b and v.k != 'c':
      if not isubset(self.interval(st, v), ((0, (1 << b) - 1),)):
        nv = mk('cast', b, False, v)
        v = nv
    elif b and v.k == 'c':
      v = C(v.a[0] & ((1 << b) - 1))
    st.env[l] = v
    self.rule.write(self, st, l, v, node)

  def fieldbits(self, l):
    if l.k != 'F':
      return None
    q = l.a[1]
    if not hasattr(self.P, '_fb'):
      self.P._fb = {}
      for r in self.P.records.values():
        for f in r['fields']:
          if f.get('bits') and (f['t'] or {}).get('bits'):
            self.P._fb[r['q'] + '::' + f['n']] = f['bits']
    return self.P._fb.get(q)

  def havoc(self, st, l, hint='havoc'):
    self.kill_under(st, l)
    st.env[l] = fresh(hint)

  def havoc_fields(self, st, names):
    if not names:
      return
    env = st.env
    stamp = next(_fresh)
    gl = set()
    lat = self.P.latches()
    for n in names:
      if n.startswith('::'):
        if n[2:] in lat and self.latched(st, n[2:], lat[n[2:]]):
          continue
        gl.add(n[2:])
      st.eps[n] = stamp
    for k in list(env):
      if k.k in ('F', 'E'):
        x = k
        hit = False
        while x.k in ('F', 'E'):
          if x.k == 'F' and x.a[1] in names:
            hit = True
            break
          x = x.a[0]
        if not hit and x.k == 'G' and self.gname(x) in gl:
          hit = True
        if hit:
          del env[k]
      elif k.k == 'G' and self.gname(k) in gl:
        del env[k]
    for g in self.P.globals.values():
      if g['q'] in gl:
        st.eps[mk('G', g['u'])] = stamp

  def latched(self, st, q, c):
    for g in self.P.globals.values():
      if g['q'] == q:
        v = st.env.get(mk('G', g['u']))
        if v is None or not (v.k == 'c' and v.a[0] == c):
          return False
    return True

  def gname(self, l):
    g = self.P.globals.get(l.a[0])
    return g['q'] if g else None

  def drop_frame(self, st, frame):
    env = st.env
    dead = []
    for k in env:
      x = k
      while x.k in ('F', 'E'):
        x = x.a[0]
      if x.k in ('V', 'ref', 'TMP') and x.a[1] == frame or x.k == 'this' and x.a[0] == frame:
        dead.append(k)
    for k in dead:
      del env[k]

  # --------------------------------------------------------------------- join
  def widen(self, old, new, thr):
    """bounds that moved go to the next constant of the loop or become infinite"""
    lo, hi = ihull(new)
    olo, ohi = ihull(old)
    if lo < olo:
      lo = max([x for x in thr if x <= lo], default=-INF)
    if hi > ohi:
      hi = min([x for x in thr if x >= hi], default=INF)
    return ((lo, hi),)

  def thresholds(self, n):
    r = self._thr.get(n['_i'])
    if r is None:
      r = set()
      for x in walk(n):
        v = x.get('cv', x.get('v') if x['k'] == 'Int' else None)
        if isinstance(v, int) and not isinstance(v, bool) and abs(v) > 255:
          r.add(v)
      r = self._thr[n['_i']] = tuple(sorted(r)[-4:])
    return r

  def join2(self, a, b, tag, widen=False, changed=EMPTY, thr=()):
    """join b into a; `changed`: loop symbols whose meaning changed in b"""
    env = {}
    facts = {}
    keys = list(a.env)
    keys += [k for k in b.env if k not in a.env]
    eps = dict(a.eps)
    for n in set(a.eps) | set(b.eps):
      if a.eps.get(n) != b.eps.get(n):
        eps[n] = joined_epoch(tag, a.eps.get(n), b.eps.get(n)) if not widen else ('jw', tag)
    res = State(env, facts, a.mon, eps)
    phis = []
    for k in keys:
      va = a.env.get(k)
      vb = b.env.get(k)
      if va is None or vb is None:
        if k.k in ('ref', 'this'):
          continue
        if (k.syms and changed and k.syms & changed):
          continue
        if va is None:
          va = self.default(a, k)
        if vb is None:
          vb = self.default(b, k)
      if va is vb and not (vb.syms and changed and (vb.syms & changed)):
        env[k] = va
      elif k.k in ('ref', 'this'):
        continue
      else:
        phi = mk('phi', tag, k)
        if va is phi and vb is phi:
          env[k] = phi
          continue
        if va.k in ('it', 'rit') and vb.k == va.k and va.a[0] is vb.a[0] and not (va.a[0].syms and changed and va.a[0].syms & changed):
          # iterators of the same container
          env[k] = mk(va.k, va.a[0], phi)
          if not (va.a[1] is phi and vb.a[1] is phi):
            phis.append((k, phi, va.a[1], vb.a[1]))
          continue
        env[k] = phi
        phis.append((k, phi, va, vb))
    for t, i in a.facts.items():
      if t.syms and changed and (t.syms & changed):
        # facts about loop symbols: recomputed below
        continue
      ib = b.facts.get(t)
      if ib is None:
        if t.k in ('and', 'or'):
          continue
        ib = self.interval(b, t)
      r = self.tr.get(t)
      if r is not None and ib != i:
        i, ib = iand(i, r), iand(ib, r)
      h = i if ib == i else ior(i, ib)
      if h != FULL and h:
        if widen and h != i:
          if not i:
            continue
          h = self.widen(i, h, thr)
          if h == FULL:
            continue
        facts[t] = h
    for t, ib in b.facts.items():
      if t in a.facts or t.k in ('and', 'or') or (t.syms and changed and t.syms & changed):
        continue
      ia = self.interval(a, t)
      h = ior(ia, ib)
      if h and h != FULL and ihull(h) != (-INF, INF) and not widen:
        r = self.tr.get(t)
        if r is None or not isubset(r, h):
          facts[t] = h
    for k, phi, va, vb in phis:
      ia = self.interval(a, va) if va is not phi else iand(self.tr.get(phi, FULL), a.facts.get(phi, FULL))
      ib = self.interval(b, vb)
      if not ia or not ib:
        continue
      h = ior(ia, ib)
      if widen and va is phi and h != ia:
        h = self.widen(ia, h, thr)
      if ihull(h) != (-INF, INF) or len(h) > 1:
        facts[phi] = h
      tra, trb = self.tr.get(va), self.tr.get(vb)
      if phi not in self.tr and tra is not None and (trb == tra or isc(vb)):
        self.tr[phi] = tra
    return res

  def reduce(self, states, tag):
    """deduplicate, join when there are too many states"""
    if len(states) <= 1:
      return states
    seen, out = set(), []
    for s in states:
      k = s.key()
      if k not in seen:
        seen.add(k)
        out.append(s)
    if len(out) <= self.rule.cap:
      return out
    by = {}
    for s in out:
      by.setdefault(s.mon, []).append(s)
    res = []
    for mon, l in by.items():
      s = l[0]
      for x in l[1:]:
        s = self.join2(s, x, ('m', next(_fresh)))
      res.append(s)
    return res

  # --------------------------------------------------------------- statements
  def exec(self, n, states):
    if n is None:
      return Out(list(states))
    if not states:
      return Out([])
    self.steps += len(states)
    if self.steps > self.max_steps:
      raise AnalysisError('analysis budget exceeded in %s' % self.where(n))
    k = n['k']
    m = getattr(self, 'x_' + k, None)
    if m:
      return m(n, states)
    # expression statement
    out = []
    for s in states:
      for s2, _ in self.ev(n, s):
        out.append(s2)
    return Out(self.reduce(out, n))

  def x_Empty(self, n, states):
    return Out(list(states))

  def x_Block(self, n, states):
    o = Out()
    cur = list(states)
    decls = []
    t0 = len(self.throws)
    labels = [x for x in n['s'] if isinstance(x, dict) and x['k'] == 'Label']
    i = 0
    stmts = n['s']
    frame = self.frame
    self._exec_list(stmts, 0, cur, o, n)
    # backward/forward gotos to labels of this block
    rounds = 0
    heads = {}
    while labels and o.goto:
      mine = [(l, s) for l, s in o.goto if any(x['n'] == l for x in labels)]
      if not mine:
        break
      o.goto = [(l, s) for l, s in o.goto if not any(x['n'] == l for x in labels)]
      progress = False
      for lab in labels:
        ss = [s for l, s in mine if l == lab['n']]
        if not ss:
          continue
        idx = [j for j, x in enumerate(stmts) if x is lab][0]
        new = self._loop_merge(heads.setdefault(lab['n'], {}), ss, ('lab', lab['_i'], self.frame), rounds)
        if new:
          progress = True
          self._exec_list(stmts, idx, new, o, n)
      rounds += 1
      if not progress:
        break
    # destructors of locals
    dts = []
    for x in stmts:
      if isinstance(x, dict) and x['k'] == 'Decl':
        for d in x['d']:
          if d.get('static'):
            continue
          dt = self.P.dtor_of(d.get('t'))
          if dt and not d.get('ref'):
            dts.append((V(d['d'], frame), dt, d))
    if dts:
      def run(ss):
        for l, dt, d in reversed(dts):
          r = []
          for s in ss:
            if l in s.env or any(under(kk, l) for kk in s.env):
              for s2, _ in self.invoke(dt, s, l, [], d):
                r.append(s2)
            else:
              r.append(s)
          ss = r
        return ss
      o.norm = run(o.norm)
      o.brk = run(o.brk)
      o.cont = run(o.cont)
      o.ret = [(s2, v) for s, v in o.ret for s2 in run([s])]
      o.goto = [(l, s2) for l, s in o.goto for s2 in run([s])]
      thr = self.throws[t0:]
      del self.throws[t0:]
      for s, t in thr:
        for s2 in run([s]):
          self.throws.append((s2, t))
    return o

  def _exec_list(self, stmts, i, cur, o, n):
    while i < len(stmts):
      if not cur:
        # labels after a jump may still be entered through goto
        break
      r = self.exec(stmts[i], cur)
      o.absorb(r)
      cur = self.reduce(r.norm, n)
      i += 1
    o.norm += cur
    o.norm = self.reduce(o.norm, n)

  def x_Label(self, n, states):
    return self.exec(n['s'], states)

  def x_Goto(self, n, states):
    o = Out()
    o.goto = [(n['n'], s) for s in states]
    return o

  def x_Decl(self, n, states):
    cur = states
    for d in n['d']:
      nxt = []
      for s in cur:
        nxt += self.declare(d, s)
      cur = nxt
    return Out(cur)

  def declare(self, d, s):
    frame = self.frame
    l = mk('G', ('slocal', d['d'])) if d.get('static') else V(d['d'], frame)
    if d.get('ref'):
      out = []
      if d.get('init') is None:
        return [s]
      for s2, loc in self.lval(d['init'], s):
        s2.env[mk('ref', d['d'], frame)] = loc
        out += self.bindings(d, s2, loc)
      return out
    if d.get('static'):
      return [s]
    if d.get('init') is None:
      s.env[l] = UNDEF
      self.kill_under(s, l)
      return self.bindings(d, s, l)
    out = []
    for s2 in self.init_object(l, d['init'], s, d):
      out += self.bindings(d, s2, l)
    return out

  def bindings(self, d, s, l):
    for b in d.get('bind', []):
      e = b.get('e')
      bl = None
      if b.get('hinit') is not None:
        # tuple-like: get<i>(e)
        bl = F(l, ('std::tuple::_%d' % b['i']))
        c = callee(b['hinit']) if b['hinit']['k'] == 'Call' else None
        t = d.get('t') or {}
        if bare(t.get('rec') or '') == 'std::pair':
          bl = F(l, 'std::pair::' + ('first', 'second')[b['i']])
        s.env[mk('ref', b['hd'], self.frame)] = bl
      elif e is not None and e['k'] == 'Mem':
        bl = F(l, self.canon_field(e['q']))
      elif e is not None and e['k'] == 'Idx':
        bl = E(l, C(b['i']))
      if bl is not None:
        s.env[mk('ref', b['d'], self.frame)] = bl
    return [s]

  def canon_field(self, q):
    r = self.reffield(q)
    if r:
      return r
    if '<' in q:
      return bare(q)
    return q

  def reffield(self, q):
    """name of a member which is a reference to a number"""
    if self._refs is None:
      self._refs = {c.split('::')[-1] + '::' + x['n'] for c, r in self.P.records.items() if r.get('fields') and not c.startswith('std::')
        for x in r['fields'] if (x['t'] or {}).get('ref') and (x['t'] or {}).get('bits')}
    if not self._refs:
      return None
    n = '::'.join(q.split('::')[-2:])
    return n if n in self._refs else None

  def referred(self, s, l, q):
    """what the member at l refers to"""
    return deref(self.load(s, l)) if self.reffield(q) else l

  def init_object(self, l, init, s, node):
    """initialise the object at l from an initialiser expression"""
    out = []
    if init['k'] == 'Ctor' and not init.get('cm'):
      # construct in place
      fn = self.P.funcs.get(callee(init)['id'])
      if fn and not fn.get('implicit') and not self.std.is_std(callee(init)):
        for s2, args in self.evargs(init['a'], callee(init).get('pt', []), s):
          self.kill_under(s2, l)
          s2.env[l] = UNDEF
          out += self.construct(fn, s2, l, args, init)
        return out
    for s2, v in self.val(init, s):
      self.kill_under(s2, l)
      self.write(s2, l, v, node)
      out.append(s2)
    return out

  def x_If(self, n, states):
    if n.get('init'):
      r = self.exec(n['init'], states)
      states = r.norm
    if n.get('cvar'):
      nxt = []
      for s in states:
        nxt += self.declare(n['cvar'], s)
      states = nxt
    o = Out()
    ts, fs = [], []
    for s in states:
      a, b = self.branch(n['c'], s)
      ts += a
      fs += b
    ts, fs = self.reduce(ts, n), self.reduce(fs, n)
    ra = self.exec(n['a'], ts)
    rb = self.exec(n.get('b'), fs)
    o.absorb(ra)
    o.absorb(rb)
    o.norm = self.reduce(ra.norm + rb.norm, n)
    return o

  def branch(self, c, s):
    """-> (true states, false states)"""
    if c is None:
      return [s], []
    k = c['k']
    if 'cv' in c and k not in ('Call',):
      return ([s], []) if c['cv'] else ([], [s])
    if k == 'Un' and c['op'] == '!':
      a, b = self.branch(c['a'], s)
      return b, a
    if k == 'Bin' and c['op'] in ('&&', '||'):
      a, b = self.branch(c['a'], s)
      if c['op'] == '&&':
        t, f = [], list(b)
        for x in a:
          t2, f2 = self.branch(c['b'], x)
          t += t2
          f += f2
      else:
        t, f = list(a), []
        for x in b:
          t2, f2 = self.branch(c['b'], x)
          t += t2
          f += f2
      return self.reduce(t, c), self.reduce(f, c)
    if k == 'Bin' and c['op'] == ',':
      ts, fs = [], []
      for s2, _ in self.ev(c['a'], s):
        a, b = self.branch(c['b'], s2)
        ts += a
        fs += b
      return ts, fs
    ts, fs = [], []
    for s2, v in self.val(c, s):
      v = self.tobool(v)
      tv = self.truth(s2, v)
      if tv is True:
        ts.append(s2)
      elif tv is False:
        fs.append(s2)
      else:
        s3 = s2.copy()
        if self.assume(s2, v, True):
          ts.append(s2)
        if self.assume(s3, v, False):
          fs.append(s3)
    return ts, fs

  def tobool(self, v):
    return v

  def x_Switch(self, n, states):
    if n.get('init'):
      states = self.exec(n['init'], states).norm
    if n.get('cvar'):
      nxt = []
      for s in states:
        nxt += self.declare(n['cvar'], s)
      states = nxt
    body = n['body']
    stmts = body['s'] if body['k'] == 'Block' else [body]
    entry = []   # (index, state)
    # flatten leading case labels
    items = []
    for x in stmts:
      labels = []
      while isinstance(x, dict) and x['k'] in ('Case', 'Default'):
        labels.append(x)
        x = x.get('s')
      items.append((labels, x))
    o = Out()
    arrivals = {}
    allvals = []
    for labels, _ in items:
      for lab in labels:
        if lab['k'] == 'Case':
          lo = self.caseval(lab['v'])
          hi = self.caseval(lab['vh']) if lab.get('vh') else lo
          allvals.append((lo, hi))
    after = []
    for s in states:
      for s2, v in self.val(n['c'], s):
        for idx, (labels, _) in enumerate(items):
          for lab in labels:
            s3 = s2.copy()
            if lab['k'] == 'Case':
              lo = self.caseval(lab['v'])
              hi = self.caseval(lab['vh']) if lab.get('vh') else lo
              if self.constrain(s3, v, ((lo, hi),)):
                arrivals.setdefault(idx, []).append(s3)
            else:
              ok = True
              rng = FULL
              for lo, hi in allvals:
                rng = iand(rng, inot(((lo, hi),)))
              if self.constrain(s3, v, rng):
                arrivals.setdefault(idx, []).append(s3)
        if not any(lab['k'] == 'Default' for labels, _ in items for lab in labels):
          rng = FULL
          for lo, hi in allvals:
            rng = iand(rng, inot(((lo, hi),)))
          s3 = s2.copy()
          if self.constrain(s3, v, rng):
            after.append(s3)
    cur = []
    for idx, (labels, x) in enumerate(items):
      cur = self.reduce(cur + self.reduce(arrivals.get(idx, []), n), n)
      if not cur:
        continue
      r = self.exec(x, cur)
      o.ret += r.ret
      o.cont += r.cont
      o.goto += r.goto
      after += r.brk
      cur = r.norm
    o.norm = self.reduce(after + cur, n)
    return o

  def caseval(self, v):
    if 'cv' in v:
      return v['cv']
    if 'v' in v:
      return v['v']
    if v['k'] == 'Cast':
      return self.caseval(v['a'])
    raise AnalysisError('case label not constant')

  def x_Case(self, n, states):
    return self.exec(n['s'], states)

  def x_Default(self, n, states):
    return self.exec(n['s'], states)

  def x_Break(self, n, states):
    o = Out()
    o.brk = list(states)
    return o

  def x_Continue(self, n, states):
    o = Out()
    o.cont = list(states)
    return o

  def x_Ret(self, n, states):
    o = Out()
    for s in states:
      if n.get('a') is None:
        o.ret.append((s, VOID))
      elif self.cur_retref:
        for s2, l in self.lval(n['a'], s):
          o.ret.append((s2, mk('LV', l)))
      else:
        for s2, v in self.val(n['a'], s):
          o.ret.append((s2, v))
    return o

  def x_Try(self, n, states):
    saved = self.throws
    self.throws = []
    o = self.exec(n['b'], states)
    thr = self.throws
    self.throws = saved
    for s, t in thr:
      handled = False
      for h in n['h']:
        ht = (h.get('t') or {}).get('rec')
        if h.get('t') is None or ht is None or t is None or self.exc_matches(t, ht):
          hs = [s]
          if h.get('var'):
            v = h['var']
            if v.get('ref'):
              s.env[mk('ref', v['d'], self.frame)] = mk('TMP', ('exc', h['l']), self.frame)
          r = self.exec(h['b'], hs)
          o.absorb(r)
          o.norm += r.norm
          handled = True
          break
      if not handled:
        self.throws.append((s, t))
    return o

  def exc_matches(self, t, ht):
    if t == ht or ht == 'std::exception':
      return True
    std = {'std::runtime_error': {'std::exception'}, 'std::logic_error': {'std::exception'}}
    return self.derives(t, ht)

  def derives(self, t, ht):
    seen = set()
    st = [t]
    while st:
      x = bare(st.pop())
      if x == ht:
        return True
      if x in seen:
        continue
      seen.add(x)
      r = self.P.records.get(x)
      if r:
        st += r['bases']
      st += STDEXC.get(x, [])
    return False

  # loops ---------------------------------------------------------------------
  def x_While(self, n, states):
    return self.loop(n, states, n.get('c'), n.get('body'), None, n.get('cvar'))

  def x_Do(self, n, states):
    return self.loop(n, states, n.get('c'), n.get('body'), None, None, do=True)

  def x_For(self, n, states):
    if n.get('init'):
      states = self.exec(n['init'], states).norm
    return self.loop(n, states, n.get('c'), n.get('body'), n.get('inc'), n.get('cvar'))

  def _loop_merge(self, heads, states, tag, rnd, n=None):
    """merge states into loop heads (one per monitor state); returns states to (re)process"""
    todo = []
    by = {}
    for s in states:
      by.setdefault(s.mon, []).append(s)
    for mon, l in by.items():
      h = heads.get(mon)
      old = h
      for s in l:
        if h is None:
          h = s
          continue
        changed = set()
        for k, v in h.env.items():
          if v.k in ('it', 'rit') and v.a[1].k == 'phi' and v.a[1].a[0] == tag and v.a[1].a[1] is k and s.env.get(k) is not v:
            changed.add(v.a[1])
          if v.k == 'phi' and v.a[0] == tag and v.a[1] is k and s.env.get(k) is not v:
            changed.add(v)
        # symbols created inside the loop that became part of keys
        s = self.prune_keys(s, h)
        h = self.join2(h, s, tag, widen=rnd > 2, changed=changed, thr=self.thresholds(n) if n is not None and rnd < 12 else ())
      if old is None or not self.same(old, h):
        heads[mon] = h
        todo.append(h.copy())
    return todo

  def prune_keys(self, s, h):
    """drop entries for locations that did not exist at the loop head (e.g. elements
    named by symbols created during this iteration); the enclosing container counts as changed"""
    dead = [k for k in s.env if k not in h.env and k.syms and k.k in ('F', 'E', 'D', 'TMP')]
    if not dead:
      return s
    hs = set()
    for v in h.env.values():
      hs |= v.syms
    for k in h.env:
      hs |= k.syms
    for t in h.facts:
      hs |= t.syms
    s = s.copy()
    for k in dead:
      if not (k.syms <= hs):
        if k in s.env:
          del s.env[k]
        x = k
        while x.k in ('F', 'E'):
          if x.k == 'E':
            b = x.a[0]
            if not b.syms or b.syms <= hs:
              s.env[b] = fresh('elem-changed')
              break
          x = x.a[0]
    return s

  def same(self, a, b):
    return a.env == b.env and a.facts == b.facts and a.eps == b.eps

  def loop(self, n, states, cond, body, inc, cvar, do=False):
    o = Out()
    tag = (n['_i'], self.frame)
    heads = {}
    exits = []
    if do:
      r = self.exec(body, states)
      o.ret += r.ret
      o.goto += r.goto
      exits += r.brk
      states = self.reduce(r.norm + r.cont, n)
      first = self._cond_states(cond, cvar, states)
      exits += first[1]
      states = first[0]
      pending = self._loop_merge(heads, states, tag, 0, n)
    else:
      if self.rule.unroll and cond is not None and cvar is None and 'cv' not in cond:
        states = self._unroll_definite(n, states, cond, body, inc, o, exits)
      pending = self._loop_merge(heads, states, tag, 0, n)
    rnd = 0
    while pending:
      rnd += 1
      if rnd > 25:
        raise AnalysisError('loop does not stabilise: %s' % self.where(n))
      if do:
        r = self.exec(body, pending)
        exits += r.brk
        o.ret += r.ret
        o.goto += r.goto
        nxt = self.reduce(r.norm + r.cont, n)
        ts, fs = self._cond_states(cond, cvar, nxt)
        exits += fs
        pending = self._loop_merge(heads, ts, tag, rnd, n)
      else:
        ts, fs = self._cond_states(cond, cvar, pending)
        exits += fs
        r = self.exec(body, ts)
        exits += r.brk
        o.ret += r.ret
        o.goto += r.goto
        nxt = self.reduce(r.norm + r.cont, n)
        if inc is not None:
          x = []
          for s in nxt:
            for s2, _ in self.ev(inc, s):
              x.append(s2)
          nxt = x
        pending = self._loop_merge(heads, nxt, tag, rnd, n)
    o.norm = self.reduce(exits, n)
    o.ret = self.reduce_ret(o.ret, n)
    return o

  def _unroll_definite(self, n, states, cond, body, inc, o, exits):
    """iterations whose condition is decided are kept apart (no join at the loop head)"""
    rest = []
    for _ in range(self.rule.unroll):
      run = []
      for s in states:
        a, b = self.branch(cond, s.copy())
        if a and b:
          rest.append(s)
        else:
          run += a
          exits += b
      if not run:
        return rest
      r = self.exec(body, run)
      exits += r.brk
      o.ret += r.ret
      o.goto += r.goto
      states = self.reduce(r.norm + r.cont, n)
      if inc is not None:
        states = [s2 for s in states for s2, _ in self.ev(inc, s)]
    return rest + states

  def reduce_ret(self, rets, n):
    if len(rets) <= self.rule.cap:
      return rets
    by = {}
    for s, v in rets:
      by.setdefault((s.mon, v), []).append(s)
    out = []
    for (mon, v), l in by.items():
      for s in self.reduce(l, n) if len(l) > 1 else l:
        out.append((s, v))
    if len(out) > 4 * self.rule.cap:
      by = {}
      for s, v in out:
        by.setdefault((s.mon, v if v.k in ('c', 'LV') else None), []).append((s, v))
      out = []
      for (mon, v), l in by.items():
        s, v0 = l[0]
        s = s.copy()
        rl = mk('TMP', ('ret', next(_fresh)), 0)
        if v is None:
          s.env[rl] = v0
        for x, vx in l[1:]:
          if v is None:
            x.env[rl] = vx
          s = self.join2(s, x, ('m', next(_fresh)))
        if v is None:
          rv = self.load(s, rl)
          s.env.pop(rl, None)
        else:
          rv = v
        out.append((s, rv))
    return out

  def _cond_states(self, cond, cvar, states):
    ts, fs = [], []
    for s in states:
      ss = [s]
      if cvar:
        ss = self.declare(cvar, s)
      for x in ss:
        a, b = self.branch(cond, x)
        ts += a
        fs += b
    return self.reduce(ts, cond), self.reduce(fs, cond)

  def x_RangeFor(self, n, states):
    if n.get('init'):
      states = self.exec(n['init'], states).norm
    o = Out()
    gen = []
    for s in states:
      for s2, cl in self.lval(n['range'], s):
        ver = self.load(s2, cl)
        elems = None
        if ver.k == 'list' and len(ver.a) <= 10 and not any(k.k == 'E' and k.a[0] is cl for k in s2.env):
          elems = len(ver.a)
        if elems is not None:
          self._unrolled(n, s2, cl, elems, o)
        else:
          gen.append((s2, cl))
    by = {}
    for s, cl in gen:
      by.setdefault(cl, []).append(s)
    for cl, ss in by.items():
      idxl = V(('idx', n['_i']), self.frame)
      for s in ss:
        s.env[idxl] = C0
      self._range_loop(n, ss, cl, idxl, o)
    o.norm = self.reduce(o.norm, n)
    return o

  def bind_loopvar(self, n, s, cl, idx):
    v = n['var']
    el = E(cl, idx)
    if bare((n['range'].get('t') or {}).get('rec') or '') in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set'):
      pass
    if v.get('ref'):
      s.env[mk('ref', v['d'], self.frame)] = el
      self.bindings(v, s, el)
    else:
      l = V(v['d'], self.frame)
      self.kill_under(s, l)
      val = self.load_whole(s, el)
      if idx.k != 'c' or True:
        self.settype(val, v.get('t'))
      s.env[l] = val
      self.bindings(v, s, l)

  def _unrolled(self, n, s, cl, count, o):
    cur = [s]
    for i in range(count):
      nxt = []
      for x in cur:
        self.bind_loopvar(n, x, cl, C(i))
        nxt.append(x)
      r = self.exec(n['body'], nxt)
      o.ret += r.ret
      o.goto += r.goto
      o.norm += r.brk
      cur = self.reduce(r.norm + r.cont, n)
    o.norm += cur

  def _range_loop(self, n, states, cl, idxl, o):
    tag = (n['_i'], self.frame, cl)
    heads = {}
    exits = []
    pending = self._loop_merge(heads, states, tag, 0, n)
    rnd = 0
    while pending:
      rnd += 1
      if rnd > 25:
        raise AnalysisError('loop does not stabilise: %s' % self.where(n))
      ts = []
      for s in pending:
        idx = self.load(s, idxl)
        size = mk('size', self.load(s, cl))
        c = cmp('<', idx, self.sizeterm(s, cl))
        s2 = s.copy()
        if self.assume(s2, c, False):
          exits.append(s2)
        if self.assume(s, c, True):
          self.bind_loopvar(n, s, cl, idx)
          ts.append(s)
      r = self.exec(n['body'], ts)
      exits += r.brk
      o.ret += r.ret
      o.goto += r.goto
      nxt = self.reduce(r.norm + r.cont, n)
      for s in nxt:
        s.env[idxl] = add(self.load(s, idxl), C1)
      pending = self._loop_merge(heads, nxt, tag, rnd, n)
    for s in exits:
      s.env.pop(idxl, None)
    o.norm += exits

  def sizeterm(self, st, l):
    v = self.load(st, l)
    return self.sizeof(v)

  def sizeof(self, v):
    if v.k == 'list':
      return C(len(v.a))
    if v.k == 's':
      return C(len(v.a[0].encode()))
    if v.k == 'zero':
      return C0
    if v.k == 'sized':
      return v.a[1]
    if v.k == 'mut':
      return v.a[0]
    if v.k == 'app':
      return add(self.sizeof(v.a[0]), C1)
    if v.k == 'cut':
      return sub(self.sizeof(v.a[1]), v.a[2])
    if v.k == 'slice':
      return sub(v.a[2], v.a[1])
    if v.k == 'rec':
      return self.sizeof(v.a[0]) if v.a[0].k != 'zero' else mk('size', v)
    if v.k == 'cat':
      return add(self.sizeof(v.a[0]), self.sizeof(v.a[1]))
    if v.k == 'concat':
      from . import strmodel
      return strmodel.size(self, v)
    if v.k == 'substr':
      r = mk('size', v)
      a = v.a[1]
      if r not in self.tr and len(a) > 1 and isc(a[1]) and a[1].a[0] >= 0:
        self.tr[r] = ((0, a[1].a[0]),)
      return r
    return mk('size', v)

  # --------------------------------------------------------------- expressions
  def val(self, n, s):
    """rvalue"""
    out = []
    for s2, r in self.ev(n, s):
      if r.k == 'LV':
        t = n.get('t') or {}
        l = r.a[0]
        if t.get('array'):
          v = mk('addr', E(l, C0))
        elif t.get('rec') and not t.get('ptr'):
          v = self.load_whole(s2, l)
        else:
          v = self.load(s2, l)
        self.settype(v, t)
        fb = self.fieldbits(l)
        if fb and v.k not in ('c', 'lin') and v not in self.tr:
          self.tr[v] = ((0, (1 << fb) - 1),)
        elif fb and v.k not in ('c', 'lin'):
          self.tr[v] = iand(self.tr[v], ((0, (1 << fb) - 1),)) or self.tr[v]
        out.append((s2, v))
      else:
        self.settype(r, n.get('t'))
        out.append((s2, r))
    return out

  def lval(self, n, s):
    """location (temporaries are materialised)"""
    out = []
    for s2, r in self.ev(n, s):
      if r.k == 'LV':
        out.append((s2, r.a[0]))
      else:
        if r.k == 'rec' or True:
          l = mk('TMP', n.get('_i', 0), self.frame)
          self.kill_under(s2, l)
          s2.env[l] = r
          self.settype(r, n.get('t'))
        out.append((s2, l))
    return out

  @property
  def frame(self):
    return self.stack[-1][1] if self.stack else 0

  @property
  def cur_retref(self):
    return self.stack[-1][2]

  def ev(self, n, s):
    """-> [(state, term or LV(loc))]"""
    k = n['k']
    if 'cv' in n and k not in ('Call', 'Ref', 'Mem'):
      return [(s, C(n['cv']))]
    if 'cv' in n and k == 'Ref' and not n.get('isref'):
      return [(s, C(n['cv']))]
    m = getattr(self, 'e_' + k, None)
    if m is None:
      raise AnalysisError('expression %s not supported at %s' % (k, self.where(n)))
    return m(n, s)

  def e_Int(self, n, s):
    return [(s, C(n['v']))]

  e_Enum = e_Int

  def e_Flt(self, n, s):
    v = n['v']
    return [(s, C(v) if float(v).is_integer() and abs(v) < 1e15 else mk('flt', v))]

  def e_Str(self, n, s):
    return [(s, mk('s', n['v']))]

  def e_Null(self, n, s):
    return [(s, C0)]

  def e_Zero(self, n, s):
    t = n.get('t') or {}
    return [(s, C0 if t.get('bits') or t.get('ptr') else ZERO)]

  def e_SizeOf(self, n, s):
    return [(s, mk('sizeof', (n.get('at') or {}).get('s', '?')))]

  def e_This(self, n, s):
    f = self.frame
    l = s.env.get(mk('this', f))
    if l is None:
      l = mk('OBJ', 'this')
    return [(s, addr(l))]

  def varloc(self, n, s):
    dk = n.get('dk')
    if dk == 'global':
      return mk('G', n['u'])
    if dk == 'slocal':
      return mk('G', ('slocal', n['d']))
    f = self.frame
    r = s.env.get(mk('ref', n['d'], f))
    if r is not None:
      return r
    return V(n['d'], f)

  def e_Ref(self, n, s):
    if n.get('dk') == 'func':
      return [(s, mk('fn', n['c']['id'], n['c']['q']))]
    l = self.varloc(n, s)
    if n.get('isref') and n.get('dk') == 'global':
      return [(s, mk('LV', l))]
    return [(s, mk('LV', l))]

  def e_Mem(self, n, s):
    if callee(n):
      return [(s, mk('fn', n['c']['id'], n['c']['q']))]
    out = []
    q = self.canon_field(n['q'])
    if n.get('arrow'):
      for s2, v in self.val(n['b'], s):
        out.append((s2, mk('LV', self.referred(s2, F(deref(v), q), q))))
    else:
      for s2, r in self.ev(n['b'], s):
        if r.k == 'LV':
          out.append((s2, mk('LV', self.referred(s2, F(r.a[0], q), q))))
        else:
          v = self.fld(r, q)
          out.append((s2, v))
    return out

  def e_Idx(self, n, s):
    out = []
    for s2, r in self.ev(n['a'], s):
      t = n['a'].get('t') or {}
      for s3, i in self.val(n['i'], s2):
        if r.k == 'LV':
          if t.get('array') or not t.get('ptr'):
            base = r.a[0]
          else:
            p = self.load(s3, r.a[0])
            base = self.ptrbase(p)
        else:
          base = self.ptrbase(r)
          if r.k == 's':
            out.append((s3, self.elt(r, i)))
            continue
        off = C0
        if base.k == 'E':
          base, off = base.a
        out.append((s3, mk('LV', E(base, add(i, off) if i.k != 'zero' else off))))
    return out

  def ptrbase(self, p):
    if p.k == 'addr':
      return p.a[0]
    if p.k == 'ptrto':
      return p.a[0]
    return mk('D', p)

  def e_Cast(self, n, s):
    out = []
    ck = n['ck']
    t = n.get('t') or {}
    for s2, v in self.val(n['a'], s):
      if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
        out.append((s2, v if is_bool(v) else neg(eq(v, C0))))
      elif ck in ('IntegralCast',):
        out.append((s2, self.icast(s2, v, t)))
      elif ck in ('NullToPointer',):
        out.append((s2, C0))
      elif ck in ('FloatingToIntegral',):
        i = self.interval(s2, v)
        out.append((s2, v if isubset(i, self.typerange(t)) and v.k == 'c' else mk('f2i', v)))
      elif ck in ('IntegralToFloating', 'FloatingCast'):
        out.append((s2, v))
      elif ck == 'ToVoid':
        out.append((s2, VOID))
      else:
        out.append((s2, v))
    return out

  def icast(self, s, v, t):
    r = self.typerange(t)
    if r is FULL or v.k == 'undef':
      return v
    if is_bool(v):
      return v
    i = self.interval(s, v)
    if isubset(i, r):
      return v
    bits, sg = t.get('bits'), bool(t.get('signed'))
    if isc(v):
      x = v.a[0] & ((1 << bits) - 1)
      if sg and x >= (1 << (bits - 1)):
        x -= 1 << bits
      return C(x)
    if ihull(i)[0] == -INF or ihull(i)[1] == INF:
      # unknown mathematical value: treat sizes and differences as fitting unless narrowed
      if bits >= 64:
        return v
    if v.k == 'lin' and bits >= 32 and all(x.k in ('size', 'phi', 'ini', 'new', 'elt', 'fld') for x, _ in v.a[1]) and bits >= 64:
      return v
    return mk('cast', bits, sg, v)

  def e_Un(self, n, s):
    op = n['op']
    out = []
    if op == '&':
      for s2, r in self.ev(n['a'], s):
        if r.k == 'LV':
          out.append((s2, addr(r.a[0])))
        else:
          out.append((s2, r))
      return out
    if op == '*':
      for s2, v in self.val(n['a'], s):
        out.append((s2, mk('LV', deref(v))))
      return out
    if op in ('pre++', 'pre--', 'post++', 'post--'):
      t = n['a'].get('t') or {}
      for s2, l in self.lval(n['a'], s):
        old = self.load(s2, l)
        self.settype(old, t)
        if old.k == 'undef':
          old = fresh('undef')
        new = self.step(old, 1 if '++' in op else -1)
        self.write(s2, l, new, n)
        out.append((s2, old if op.startswith('post') else mk('LV', l)))
      return out
    for s2, v in self.val(n['a'], s):
      if op == '!':
        out.append((s2, neg(v if is_bool(v) else v)))
      elif op == '-':
        out.append((s2, scale(v, -1) if v.k != 'flt' else fresh('neg')))
      elif op == '+':
        out.append((s2, v))
      elif op == '~':
        out.append((s2, C(~v.a[0]) if isc(v) else mk('inv', v)))
      else:
        out.append((s2, mk('un' + op, v)))
    return out

  def step(self, v, d):
    if v.k == 'it':
      return mk('it', v.a[0], add(v.a[1], C(d)))
    if v.k in ('addr',) and v.a[0].k == 'E':
      return mk('addr', E(v.a[0].a[0], add(v.a[0].a[1], C(d))))
    return add(v, C(d))

  def e_Bin(self, n, s):
    op = n['op']
    out = []
    if op == '=':
      t = n['a'].get('t') or {}
      for s2, v in self.val(n['b'], s):
        for s3, l in self.lval(n['a'], s2):
          self.write(s3, l, v, n)
          out.append((s3, mk('LV', l)))
      return out
    if op in ('&&', '||'):
      ts, fs = self.branch(n, s)
      return [(x, C1) for x in ts] + [(x, C0) for x in fs]
    if op == ',':
      for s2, _ in self.ev(n['a'], s):
        out += self.ev(n['b'], s2)
      return out
    if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
      t = n['a'].get('t') or {}
      for s2, v in self.val(n['b'], s):
        for s3, l in self.lval(n['a'], s2):
          old = self.load(s3, l)
          self.settype(old, t)
          nv = self.fit(s3, op[:-1], self.arith(s3, op[:-1], old, v, t), t, n)
          self.write(s3, l, nv, n)
          out.append((s3, mk('LV', l)))
      return out
    for s2, a in self.val(n['a'], s):
      for s3, b in self.val(n['b'], s2):
        if op in ('==', '!=', '<', '<=', '>', '>='):
          out.append((s3, self.compare(op, a, b)))
        else:
          out.append((s3, self.fit(s3, op, self.arith(s3, op, a, b, n.get('t')), n.get('t'), n)))
    return out

  def fit(self, s, op, v, t, n):
    """result of arithmetic which may exceed its type (only for rules asking for it)"""
    if not getattr(self.rule, 'wrap', False) or op not in ('+', '-', '*', '<<', 'neg') or v.k not in ('lin', 'mul', 'shl', 'c'):
      return v
    r = self.typerange(t)
    if r is FULL or isubset(self.interval(s, v), r):
      return v
    self.rule.wrapped(self, s, v, n)
    return mk('cast', t['bits'], bool(t.get('signed')), v)

  def compare(self, op, a, b):
    a, b = self.ptrint(a), self.ptrint(b)
    if a.k == 'pi' or b.k == 'pi':
      if a.k == 'pi' and b.k == 'pi' and a.a[0] is b.a[0]:
        return cmp(op, a.a[1], b.a[1])
      a = a.a[2] if a.k == 'pi' else a
      b = b.a[2] if b.k == 'pi' else b
    return cmp(op, a, b)

  def ptrint(self, a):
    if a.k == 'addr' and a.a[0].k == 'E':
      return mk('pi', a.a[0].a[0], a.a[0].a[1], a)
    return a

  def arith(self, s, op, a, b, t):
    if a.k == 'zero':
      a = C0
    if b.k == 'zero':
      b = C0
    if op in ('+', '-'):
      if a.k == 'it':
        if b.k == 'it':
          return sub(a.a[1], b.a[1]) if a.a[0] is b.a[0] else fresh('itdiff')
        return mk('it', a.a[0], add(a.a[1], b, 1 if op == '+' else -1))
      if b.k == 'it' and op == '+':
        return mk('it', b.a[0], add(b.a[1], a))
      if a.k == 'addr':
        if b.k == 'addr' and op == '-':
          if a.a[0].k == 'E' and b.a[0].k == 'E' and a.a[0].a[0] is b.a[0].a[0]:
            return sub(a.a[0].a[1], b.a[0].a[1])
          return fresh('ptrdiff')
        l = a.a[0]
        if l.k == 'E':
          return mk('addr', E(l.a[0], add(l.a[1], b, 1 if op == '+' else -1)))
        return mk('addr', E(l, b if op == '+' else scale(b, -1)))
      if a.k == 's' or b.k == 's':
        return fresh('strptr') if not (isc(b) and b.a[0] == 0) else a
      return add(a, b, 1 if op == '+' else -1)
    if op == '*':
      if isc(a):
        return scale(b, a.a[0])
      if isc(b):
        return scale(a, b.a[0])
      return mk('mul', a, b)
    if isc(a) and isc(b):
      x, y = a.a[0], b.a[0]
      try:
        if op == '&':
          return C(x & y)
        if op == '|':
          return C(x | y)
        if op == '^':
          return C(x ^ y)
        if op == '<<':
          return C(x << y) if 0 <= y < 64 else fresh('shift')
        if op == '>>':
          return C(x >> y) if y >= 0 else fresh('shift')
        if op == '/' and y:
          return C(int(x / y))
        if op == '%' and y:
          return C(x - y * int(x / y))
      except (ValueError, OverflowError):
        pass
    if op == '&':
      return mk('bitand', *sorted((a, b), key=lambda x: x.id))
    if op == '|':
      if is_bool(a) and is_bool(b):
        return mk('or', a, b)
      return mk('bitor', *sorted((a, b), key=lambda x: x.id))
    return mk({'^': 'xor', '<<': 'shl', '>>': 'shr', '/': 'div', '%': 'mod'}.get(op, 'op' + op), a, b)

  def e_Cond(self, n, s):
    ts, fs = self.branch(n['c'], s)
    out = []
    for x in ts:
      out += self.ev(n['a'], x)
    for x in fs:
      out += self.ev(n['b'], x)
    return out

  def e_Lambda(self, n, s):
    caps = []
    f = self.frame
    this = s.env.get(mk('this', f))
    states = [(s, ())]
    for c in n.get('caps', []):
      if c.get('this') or 'd' not in c:
        continue
      if c.get('init') is not None:
        nxt = []
        for s2, cc in states:
          l = V(('cap', n['_i'], c['d']), f)
          for s3 in self.init_object(l, c['init'], s2, n):
            nxt.append((s3, cc + ((c['d'], l),)))
        states = nxt
        continue
      nxt = []
      for s2, cc in states:
        src = s2.env.get(mk('ref', c['d'], f)) or V(c['d'], f)
        if c.get('ref'):
          nxt.append((s2, cc + ((c['d'], src),)))
        else:
          l = V(('cap', n['_i'], c['d']), f)
          self.kill_under(s2, l)
          s2.env[l] = self.load_whole(s2, src)
          nxt.append((s2, cc + ((c['d'], l),)))
      states = nxt
    ids = tuple(n.get('insts') or [n['id']])
    return [(s2, mk('lam', n['id'], ids, cc, this)) for s2, cc in states]

  def e_Init(self, n, s):
    states = [(s, ())]
    for i, a in enumerate(n['a']):
      nxt = []
      ref = 'fields' in n and i < len(n['fields']) and self.reffield('%s::%s' % ((n.get('t') or {}).get('rec'), n['fields'][i]))
      for s2, vs in states:
        if ref:
          nxt += [(s3, vs + (addr(v.a[0]) if v.k == 'LV' else v,)) for s3, v in self.ev(a, s2)]
          continue
        for s3, v in self.val(a, s2):
          nxt.append((s3, vs + (v,)))
      states = nxt
    t = n.get('t') or {}
    out = []
    for s2, vs in states:
      rec = t.get('rec')
      if 'fields' in n and rec and not bare(rec).startswith('std::array'):
        if bare(rec).startswith('std::') and not n['a']:
          out.append((s2, mk('list')))
          continue
        out.append((s2, mk('rec', ZERO, tuple((self.canon_field(rec + '::' + f), v) for f, v in zip(n['fields'], vs)))))
      elif 'fields' in n and len(vs) == 1:
        out.append((s2, vs[0]))
      elif t.get('bits') and len(vs) == 1:
        out.append((s2, vs[0]))
      elif (t.get('bits') or t.get('ptr')) and not vs:
        out.append((s2, C0))
      else:
        if t.get('array') and t['array'] > len(vs) and t['array'] <= 4096:
          vs = vs + (ZERO,) * (t['array'] - len(vs))
        elif t.get('array') and t['array'] > len(vs):
          out.append((s2, ZERO))
          continue
        out.append((s2, mk('list', *vs)))
    return out

  def e_StmtExpr(self, n, s):
    o = self.exec(n['s'], [s])
    return [(x, fresh('stmtexpr')) for x in o.norm]

  def e_New(self, n, s):
    out = []
    at = n.get('at') or {}
    if n.get('a') is not None and n['a']['k'] == 'Ctor':
      l = mk('D', fresh('obj'))
      for s2 in self.init_object(l, n['a'], s, n):
        out.append((s2, mk('ptrto', l)))
      return out
    sts = [s] if n.get('a') is None else [x for x, _ in self.ev(n['a'], s)]
    return [(x, mk('ptrto', mk('D', fresh('obj')))) for x in sts]

  def e_Delete(self, n, s):
    return [(s2, VOID) for s2, _ in self.val(n['a'], s)]

  def e_Throw(self, n, s):
    if n.get('a') is not None:
      for s2, _ in self.ev(n['a'], s):
        self.throws.append((s2, (n.get('tt') or {}).get('rec')))
    else:
      self.throws.append((s, None))
    return []

  def e_Other(self, n, s):
    states = [s]
    for c in n.get('ch', []):
      nxt = []
      for x in states:
        if 'k' in c:
          nxt += [y for y, _ in self.ev(c, x)] if not hasattr(self, 'x_' + c['k']) else self.exec(c, [x]).norm
      states = nxt
    return [(x, fresh(n.get('cls', ''))) for x in states]

  # -------------------------------------------------------------------- calls
  def evargs(self, args, pts, s):
    states = [(s, ())]
    for i, a in enumerate(args):
      p = pts[i] if i < len(pts) else None
      nxt = []
      for s2, vs in states:
        if p is not None and p.get('ref'):
          for s3, l in self.lval(a, s2):
            nxt.append((s3, vs + (mk('LV', l),)))
        else:
          for s3, v in self.val(a, s2):
            nxt.append((s3, vs + (v,)))
      states = nxt
    return states

  def rv(self, s, a):
    """value of an argument (loads references)"""
    if a.k == 'LV':
      return self.load_whole(s, a.a[0])
    return a

  def e_Ctor(self, n, s):
    c = callee(n)
    q = n['q']
    a = n['a']
    if n.get('cm') and len(a) == 1:
      out = []
      fn = self.P.funcs.get(c['id'])
      if fn and not fn.get('implicit'):
        for s2, args in self.evargs(a, c.get('pt', []), s):
          l = mk('TMP', n['_i'], self.frame)
          self.kill_under(s2, l)
          s2.env[l] = UNDEF
          for s3 in self.construct(fn, s2, l, list(args), n):
            out.append((s3, self.load_whole(s3, l)))
        return out
      for s2, l in self.lval(a[0], s):
        v = self.load_whole(s2, l)
        out.append((s2, v))
      return self.callhook_ctor(n, c, out)
    fn = self.P.funcs.get(c['id'])
    out = []
    for s2, args in self.evargs(a, c.get('pt', []), s):
      if fn is not None and not self.std.is_std(c):
        if fn.get('implicit') and not fn.get('inits'):
          out.append((s2, ZERO if not args else fresh('obj')))
          continue
        l = mk('TMP', n['_i'], self.frame)
        self.kill_under(s2, l)
        s2.env[l] = UNDEF
        for s3 in self.construct(fn, s2, l, list(args), n):
          out.append((s3, mk('LV', l)))
        continue
      ev = self.mkcall(n, c, None, args)
      r = self.rule.call(self, s2, ev)
      if r is not None:
        out += r
        continue
      out += self.std.ctor(n, c, s2, args)
    return out

  def callhook_ctor(self, n, c, out):
    return out

  def construct(self, fn, s, l, args, node):
    """run a constructor on the object at l"""
    rid = self.rule.call(self, s, self.mkcall(node, fn, l, args, fn=fn))
    if rid is not None:
      return [x for x, _ in rid]
    return [x for x, _ in self.invoke(fn, s, l, args, node)]

  def mkcall(self, n, c, obj, args, targets=None, fn=None):
    e = Call()
    e.node = n
    e.c = c
    e.q = bare(c['q']) if c else None
    e.name = c['n'] if c else None
    e.cls = bare(c.get('cls') or '') if c else None
    e.obj = obj
    e.args = args
    e.largs = args
    e.targets = targets or []
    e.fn = fn
    return e

  def e_Call(self, n, s):
    c = callee(n)
    out = []
    if c is None:
      # call through a pointer / function object value
      for s2, fv in self.val(n['ce'], s):
        for s3, args in self.evargs(n['a'], [], s2):
          out += self.call_value(fv, s3, [x for x in args], n)
      return out
    if c['id'] in ('',):
      pass
    targets = self.P.targets(n)
    if n.get('o') is not None and not c.get('static'):
      objs = []
      if n.get('arrow'):
        # implicit object argument is a pointer
        for s2, v in self.val(n['o'], s):
          objs.append((s2, deref(v)))
      else:
        for s2, l in self.lval(n['o'], s):
          objs.append((s2, l))
    else:
      objs = [(s, None)]
    for s2, obj in objs:
      for s3, args in self.evargs(n['a'], c.get('pt', []), s2):
        out += self.do_call(n, c, s3, obj, args, targets)
    if len(out) > self.rule.cap:
      out = self.reduce_ret(out, n)
    return out

  def do_call(self, n, c, s, obj, args, targets):
    ev = self.mkcall(n, c, obj, args, targets)
    r = self.rule.call(self, s, ev)
    if r is not None:
      return r
    if c.get('noreturn') or ev.q in NORETURN:
      return []
    if c.get('lambda') and obj is not None:
      v = self.load(s, obj)
      if v.k == 'lam':
        return self.call_lambda(v, s, list(args), n, c['id'])
      if c['id'] in self.P.funcs:
        return self.invoke_or_sum([self.P.funcs[c['id']]], s, None, list(args), n, c)
    if not targets or self.std.is_std(c):
      r = self.std.call(n, c, ev, s, obj, args)
      if r is not None:
        return r
      return self.external(n, c, s, obj, args)
    # devirtualise: an object of known dynamic type
    return self.invoke_or_sum(targets, s, obj, list(args), n, c)

  def external(self, n, c, s, obj, args):
    for a, p in zip(args, c.get('pt', [])):
      if a.k == 'LV' and p.get('ref') and not p.get('const'):
        self.havoc(s, a.a[0], c['n'])
      elif a.k == 'addr' and p.get('ptr') and not p.get('pc'):
        self.havoc(s, whole(a.a[0]), c['n'])
    for a in args[len(c.get('pt', [])):]:
      if a.k == 'addr':
        self.havoc(s, whole(a.a[0]), c['n'])
    if obj is not None and not c.get('const') and not c.get('static'):
      self.havoc(s, obj, c['n'])
    ret = c.get('ret') or {}
    v = fresh(c['n'])
    if ret.get('ref'):
      return [(s, mk('LV', mk('D', v)))]
    self.settype(v, ret)
    return [(s, v)]

  def call_value(self, fv, s, args, n):
    if fv.k == 'lam':
      return self.call_lambda(fv, s, args, n)
    if fv.k == 'fn':
      f = self.P.funcs.get(fv.a[0])
      if f:
        obj = None
        if f.get('cls') and not f.get('static') and args:
          obj = args[0].a[0] if args[0].k == 'LV' else deref(args[0])
          args = args[1:]
        ts = [f]
        if f.get('virt'):
          ts += [self.P.funcs[i] for i in sorted(self.P.over.get(f['id'], ())) if i in self.P.funcs]
        return self.invoke_or_sum(ts, s, obj, args, n, f)
    if fv.k == 'bind':
      tgt, bargs = fv.a
      full = []
      ai = 0
      for b in bargs:
        if b.k == 'placeholder':
          i = b.a[0] - 1
          full.append(args[i] if i < len(args) else fresh('arg'))
        else:
          full.append(b)
      return self.call_value(tgt, s, full, n)
    r = getattr(self.rule, 'unknown_call', None)
    if r:
      x = r(self, s, fv, args, n)
      if x is not None:
        return x
    for a in args:
      if a.k == 'LV':
        self.havoc(s, a.a[0], 'unknown-callee')
    v = fresh('callvalue')
    self.settype(v, n.get('t'))
    return [(s, v)]

  def call_lambda(self, lam, s, args, n, fid=None):
    ids = lam.a[1]
    cand = [fid] if fid in self.P.funcs else [i for i in ids if i in self.P.funcs]
    if not cand:
      return [(s, fresh('lambda'))]
    # choose instantiation with matching arity
    f = None
    for i in cand:
      if len(self.P.funcs[i]['params']) == len(args):
        f = self.P.funcs[i]
        break
    f = f or self.P.funcs[cand[0]]
    return self.invoke(f, s, lam.a[3], args, n, caps=lam.a[2])

  def relevant(self, fn):
    r = self._rel.get(fn['id'])
    if r is None:
      r = False
      self._rel[fn['id']] = False
      x = self.rule.inline(self, fn)
      if x is not None:
        r = x
      else:
        for g in self.P.reach(fn).values():
          if self.locally_interesting(g):
            r = True
            break
      self._rel[fn['id']] = r
    return r

  def locally_interesting(self, g):
    key = ('li', g['id'])
    r = self._rel.get(key)
    if r is None:
      r = any(self.rule.interesting(self.P, x) for x in self.P.nodes(g))
      self._rel[key] = r
    return r

  def fsize(self, fn):
    r = self._size.get(fn['id'])
    if r is None:
      r = 0
      loops = 0
      for x in self.P.nodes(fn):
        r += 1
        if x['k'] in ('For', 'While', 'Do', 'RangeFor'):
          loops += 1
      r += loops * 30
      self._size[fn['id']] = r
    return r

  def simple(self, fn):
    """loop-free helper without effects on shared state: cheap to inline"""
    key = ('simple', fn['id'])
    r = self._rel.get(key)
    if r is None:
      r = not self.P.mods(fn) and not any(x['k'] in ('For', 'While', 'Do', 'RangeFor') for g in self.P.reach(fn).values()
        for x in self.P.nodes(g))
      self._rel[key] = r
    return r

  def invoke_or_sum(self, targets, s, obj, args, n, c):
    out = []
    tl = [t for t in targets if t['id'] not in self.P.pure]
    for i, t in enumerate(tl):
      s2 = s.copy() if i + 1 < len(tl) else s
      depth = sum(1 for x in self.stack if x[0] == t['id'])
      if depth == 0 and len(self.stack) < self.rule.max_depth and (self.relevant(t) or
          (self.fsize(t) <= self.rule.small and len(self.stack) < self.rule.max_depth - 10 and self.simple(t))):
        out += self.invoke(t, s2, obj, args, n)
      else:
        out += self.summary(t, s2, obj, args, n)
    return out

  def summary(self, fn, s, obj, args, n):
    """effect of a call that is not inlined"""
    h = getattr(self.rule, 'summarised', None)
    if h:
      r = h(self, s, fn, obj, args, n)
      if r is not None:
        return r
    if fn.get('implicit') and fn['n'] == 'operator=' and obj is not None and len(args) == 1:
      # memberwise assignment
      a = args[0]
      v = self.load_whole(s, a.a[0]) if a.k == 'LV' else a
      rref = (fn['params'][0].get('t') or {}).get('rref')
      if rref and a.k == 'LV' and a.a[0] is not obj:
        self.havoc(s, a.a[0], 'moved')
      self.write(s, obj, v, n)
      return [(s, mk('LV', obj))]
    self.havoc_fields(s, self.P.mods(fn))
    for a, p in zip(args, fn.get('params', [])):
      t = p.get('t') or {}
      if a.k == 'LV' and t.get('ref') and not t.get('const'):
        self.havoc(s, a.a[0], fn['n'])
      elif a.k == 'addr' and t.get('ptr') and not t.get('pc'):
        self.havoc(s, whole(a.a[0]), fn['n'])
      elif a.k == 'lam':
        f2 = [self.P.funcs[i] for i in a.a[1] if i in self.P.funcs]
        for x in f2:
          self.havoc_fields(s, self.P.mods(x))
        for d, l in a.a[2]:
          self.havoc(s, l, 'captured')
    if fn.get('ctor') and obj is not None:
      self.havoc(s, obj, fn['n'])
    v = fresh(fn['n'])
    if (fn.get('ret') or {}).get('ref'):
      return [(s, mk('LV', mk('D', v)))]
    self.settype(v, fn.get('ret'))
    return [(s, v)]

  def frameid(self, fn, n):
    key = (self.frame, n.get('_i', n.get('l', 0)), fn['id'])
    f = self.frames.get(key)
    if f is None:
      f = next(self.framectr)
      self.frames[key] = f
    return f

  def invoke(self, fn, s, obj, args, n, caps=None):
    if sum(1 for x in self.stack if x[0] == fn['id']) > 1 or len(self.stack) > self.rule.max_depth + 10:
      return self.summary(fn, s, obj, args, n)
    fr = self.frameid(fn, n)
    self.fn_inlined[fn['id']] = fn
    ret = fn.get('ret') or {}
    # bind parameters
    for i, p in enumerate(fn['params']):
      if i < len(args):
        a = args[i]
      else:
        a = None
      t = p.get('t') or {}
      if t.get('ref'):
        if a is not None and a.k == 'LV':
          s.env[mk('ref', p['d'], fr)] = a.a[0]
        else:
          l = V(p['d'], fr)
          self.kill_under(s, l)
          s.env[l] = a if a is not None else fresh(p['n'])
      else:
        l = V(p['d'], fr)
        self.kill_under(s, l)
        v = self.rv(s, a) if a is not None else fresh(p['n'])
        s.env[l] = v
        self.settype(v, t)
    if caps:
      for d, l in caps:
        s.env[mk('ref', d, fr)] = l
    if obj is not None:
      s.env[mk('this', fr)] = obj
    self.stack.append((fn['id'], fr, bool(ret.get('ref')), n))
    try:
      self.rule.enter(self, s, fn, n)
      states = [s]
      if fn.get('ctor'):
        states = self.ctor_inits(fn, states, obj, fr)
      o = self.exec(fn['body'], states)
      rets = list(o.ret) + [(x, VOID) for x in o.norm]
      rets = self.reduce_ret(rets, fn['body'])
      out = []
      for x, v in rets:
        self.rule.leave(self, x, fn, v, n)
        out.append((x, v))
    finally:
      self.stack.pop()
    res = []
    for x, v in out:
      if fn.get('dtor'):
        pass
      self.drop_frame(x, fr)
      res.append((x, v))
    if len(res) > 1:
      res = self.merge_rets(res, 1 if not self.relevant(fn) else self.rule.retcap)
    return res

  def merge_rets(self, rets, cap):
    """join the outcomes of a call that agree on monitor state and constant result"""
    by = {}
    for s, v in rets:
      # constants and void are kept apart, symbolic results are unified
      c = v if v.k in ('c', 'void', 'LV', 's', 'lam') else (v.k if v.k in ('it', 'rit', 'ptrto', 'addr') else None)
      if v.k == 'rec':
        h = self.fld(v, '$opt::has')
        if h.k == 'c':
          c = ('opt', h)
      elif v.k in ('it', 'rit'):
        c = v
      by.setdefault((s.mon, c), []).append((s, v))
    out = []
    for (mon, c), l in by.items():
      if len(l) > 1:
        seen, l2 = set(), []
        for s, v in l:
          kk = (s.key(), v)
          if kk not in seen:
            seen.add(kk)
            l2.append((s, v))
        l = l2
      if len(l) <= cap:
        out += l
        continue
      out.append(self.join_rets(l))
    return out

  def join_rets(self, l):
    s, v0 = l[0]
    if all(v is v0 for _, v in l):
      for x, _ in l[1:]:
        s = self.join2(s, x, ('m', next(_fresh)))
      return s, v0
    s = s.copy()
    rl = mk('TMP', ('ret', next(_fresh)), 0)
    s.env[rl] = v0
    for x, vx in l[1:]:
      x.env[rl] = vx
      s = self.join2(s, x, ('m', next(_fresh)))
      x.env.pop(rl, None)
    rv = self.load(s, rl)
    s.env.pop(rl, None)
    return s, rv

  def ctor_inits(self, fn, states, obj, fr):
    for i in fn.get('inits', []):
      e = i.get('e')
      nxt = []
      for s in states:
        if 'fq' in i and e is not None:
          l = F(obj, self.canon_field(i['fq']))
          if (e.get('t') or {}).get('ref') or self.reffield(i['fq']):
            for s2, tl in self.lval(e, s):
              s2.env[l] = addr(tl)
              nxt.append(s2)
          else:
            nxt += self.init_object(l, e, s, e)
        elif e is not None and e['k'] == 'Ctor':
          bf = self.P.funcs.get(callee(e)['id'])
          if bf and not self.std.is_std(callee(e)):
            for s2, args in self.evargs(e['a'], callee(e).get('pt', []), s):
              nxt += self.construct(bf, s2, obj, list(args), e)
          else:
            for s2, v in self.val(e, s):
              s2.env[obj] = v
              nxt.append(s2)
        else:
          nxt.append(s)
      states = nxt
    return states

  # ------------------------------------------------------------------- driver
  def run(self, fn, mon, obj=None, setup=None):
    """analyse fn from an arbitrary initial state; -> [(state, return value)]"""
    s = State(mon=mon)
    obj = obj if obj is not None else (mk('OBJ', fn.get('cls') or 'this') if fn.get('cls') and not fn.get('static') else None)
    args = []
    for p in fn['params']:
      t = p.get('t') or {}
      a = mk('PARAM', fn['q'], p['n'], fn['params'].index(p))
      if t.get('ref'):
        args.append(mk('LV', mk('D', a)))
      else:
        self.settype(a, t)
        args.append(a)
    if setup:
      args = setup(self, s, args) or args
    return self.invoke(fn, s, obj, args, {'_i': 0, 'l': fn['l'], '_f': fn['id'], 'k': 'entry'})


NORETURN = {'exit', '_exit', 'abort', 'std::terminate', 'std::abort', 'std::exit', 'quick_exit'}
STDEXC = {
  'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
  'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'],
  'std::length_error': ['std::logic_error'], 'std::domain_error': ['std::logic_error'],
  'std::range_error': ['std::runtime_error'], 'std::overflow_error': ['std::runtime_error'],
  'std::underflow_error': ['std::runtime_error'], 'std::regex_error': ['std::runtime_error'],
  'std::system_error': ['std::runtime_error'], 'std::filesystem::filesystem_error': ['std::system_error'],
  'std::filesystem::__cxx11::filesystem_error': ['std::system_error'],
  'std::bad_alloc': ['std::exception'], 'std::bad_function_call': ['std::exception'],
  'std::bad_optional_access': ['std::exception'], 'std::bad_variant_access': ['std::exception'],
  'std::bad_cast': ['std::exception'],
}

from ..engine import *
from ..program import load, callee, walk, children
from ..facts import AnalysisError
from ..stdmodel import HAS, VAL


def enum_val(P, enum, name):
  e = P.enums.get(enum)
  if e is None:
    raise AnalysisError('enum %s not found' % enum)
  for x in e['e']:
    if x['n'] == name:
      return x['v']
  raise AnalysisError('enumerator %s::%s not found' % (enum, name))


def method(P, q):
  """the single non-implicit definition of a method"""
  return P.find1(q)


def impls(P, q):
  """overriders (leaf implementations) of a virtual method by qualified name, or the method itself"""
  out = []
  ids = set()
  for r in P.records.values():
    for m in r['methods']:
      if r['q'] + '::' + m['n'] == q:
        ids.add(m['id'])
  for i in ids:
    for x in [i] + sorted(P.over.get(i, ())):
      if x in P.funcs and P.funcs[x] not in out:
        out.append(P.funcs[x])
  return out


def is_a(P, cls, base):
  seen, st = set(), [cls]
  while st:
    x = st.pop()
    if x == base:
      return True
    if x in seen or x is None:
      continue
    seen.add(x)
    r = P.records.get(x)
    if r:
      st += [b if isinstance(b, str) else b.get('q') for b in r['bases']]
  return False


def calls_method(ev, P, base, name):
  """call event of method `name` declared in class `base` or a class derived from / base of it"""
  return ev.name == name and ev.cls and (is_a(P, ev.cls, base) or is_a(P, base, ev.cls))


def node_calls(n, *names):
  if n['k'] in ('Call', 'Ctor', 'Ref', 'Mem'):
    c = callee(n)
    return c is not None and c['n'] in names
  return False


class Spec(Rule):
  """rule assembled from functions"""
  def __init__(self, interest=None, on_call=None, on_write=None, on_enter=None, on_leave=None, inline=None, on_load=None, **kw):
    self._interest, self._call, self._write = interest, on_call, on_write
    self._enter, self._leave, self._inline, self._load = on_enter, on_leave, inline, on_load
    for k, v in kw.items():
      setattr(self, k, v)

  def interesting(self, P, n):
    return bool(self._interest and self._interest(n))

  def call(self, I, st, ev):
    return self._call(I, st, ev) if self._call else None

  def write(self, I, st, loc, val, node):
    if self._write:
      self._write(I, st, loc, val, node)

  def enter(self, I, st, fn, node):
    if self._enter:
      self._enter(I, st, fn, node)

  def leave(self, I, st, fn, val, node):
    if self._leave:
      self._leave(I, st, fn, val, node)

  def inline(self, I, fn):
    return self._inline(I, fn) if self._inline else None

  def load(self, I, st, loc):
    return self._load(I, st, loc) if self._load else None


def at(I, n):
  return I.where(n)


def obj_is_member(loc, q):
  """location reached through the member field q"""
  return isinstance(loc, T) and q in fields_of(loc)


def stepwise(I, fn, states, obj, args_of, node_id):
  """apply a function to every state"""
  out = []
  for s in states:
    args = args_of(s)
    out += I.invoke(fn, s, obj, args, {'_i': ('step', node_id), 'l': fn['l'], '_f': fn['id'], 'k': 'entry'})
  return out

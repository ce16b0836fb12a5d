"""Program model on top of the facts: lookup, call graph, mod-sets."""
import os
from . import facts

SKIP = {'t', 'at', 'tt', 'ret', 'pt', 'c_', 'ta'}


def children(n):
  """direct child AST nodes (statements, expressions, declarations)"""
  for k, v in n.items():
    if k in SKIP:
      continue
    if k == 'c':
      # callee description (dict without 'k') or condition expression
      if isinstance(v, dict) and 'k' in v:
        yield v
      continue
    if isinstance(v, dict):
      if 'k' in v:
        yield v
      elif k in ('filler',):
        yield v
    elif isinstance(v, list):
      for x in v:
        if isinstance(x, dict):
          if 'k' in x:
            yield x
          else:
            for kk in ('e', 'hinit', 'init', 'b'):
              if isinstance(x.get(kk), dict) and 'k' in x[kk]:
                yield x[kk]


def walk(n):
  stack = [n]
  while stack:
    x = stack.pop()
    if not isinstance(x, dict):
      continue
    yield x
    stack.extend(reversed(list(children(x))))


def callee(n):
  """callee description of a Call/Ctor/Mem/Ref node"""
  c = n.get('c')
  return c if isinstance(c, dict) and 'k' not in c else None


CONTAINER_MUT = {'push_back', 'emplace_back', 'pop_back', 'insert', 'erase', 'clear', 'resize', 'assign',
  'swap', 'reserve', 'emplace', 'push_front', 'pop_front', 'emplace_front', 'append', 'operator=', 'operator+=',
  'operator[]', 'reset', 'release', 'fill', 'replace', 'remove_prefix', 'remove_suffix', 'try_emplace', 'insert_or_assign',
  'push', 'pop', 'merge', 'splice', 'sort', 'shrink_to_fit', 'at', 'front', 'back', 'begin', 'end', 'data', 'value', 'operator*', 'operator->'}


class Program:
  def __init__(self, name, d):
    self.name = name
    self.funcs = d['functions']
    self.records = d['records']
    self.enums = d['enums']
    self.globals = d['globals']
    self.types = d['types']
    self.tus = d['tus']
    self.byq = {}
    for f in self.funcs.values():
      self.byq.setdefault(f['q'], []).append(f)
    self._number()
    self._overrides()
    self._cg = {}
    self._reach = {}
    self._mods = None

  def rel(self, f):
    p = f.get('file', '')
    root = facts.REPO + '/'
    return p[len(root):] if p.startswith(root) else p

  def where(self, f, n=None):
    return '%s:%d' % (self.rel(f), (n or f).get('l', 0))

  def _number(self):
    i = 0
    self.nodefn = {}
    for f in self.funcs.values():
      roots = [f['body']] + [x['e'] for x in f.get('inits', []) if x.get('e')] + f.get('params', [])
      for r in roots:
        for n in walk(r):
          i += 1
          n['_i'] = i
          n['_f'] = f['id']
    for g in self.globals.values():
      for n in walk(g):
        i += 1
        n['_i'] = i
        n['_f'] = None

  def _overrides(self):
    self.over = {}
    direct = {}
    self.pure = set()
    for r in self.records.values():
      for m in r['methods']:
        for o in m['overrides']:
          direct.setdefault(o, set()).add(m['id'])
        if m['pure']:
          self.pure.add(m['id'])
    def closure(i):
      out, st = set(), [i]
      while st:
        x = st.pop()
        for y in direct.get(x, ()):
          if y not in out:
            out.add(y)
            st.append(y)
      return out
    for i in list(direct):
      self.over[i] = closure(i)
    self.overrides_of = {}
    for b, s in self.over.items():
      for x in s:
        self.overrides_of.setdefault(x, set()).add(b)

  def targets(self, n):
    """functions of this program a Call/Ctor node may invoke"""
    c = callee(n)
    if not c:
      return []
    ids = [c['id']]
    if c.get('virt') and not n.get('qualified'):
      ids += sorted(self.over.get(c['id'], ()))
    return [self.funcs[i] for i in ids if i in self.funcs]

  def find(self, q, required=True):
    l = self.byq.get(q, [])
    if not l and required:
      raise facts.AnalysisError('%s: function %s not found in the program' % (self.name, q))
    return l

  def find1(self, q):
    l = [f for f in self.find(q) if not f.get('implicit')]
    if len(l) != 1:
      raise facts.AnalysisError('%s: expected one function %s, found %d' % (self.name, q, len(l)))
    return l[0]

  def nodes(self, f):
    for x in f.get('inits', []):
      if x.get('e'):
        yield from walk(x['e'])
    yield from walk(f['body'])

  def edges(self, f):
    """[(node, target function)] including lambdas created and functions whose address is taken"""
    fid = f['id']
    if fid in self._cg:
      return self._cg[fid]
    out = []
    for n in self.nodes(f):
      k = n['k']
      if k in ('Call', 'Ctor'):
        for t in self.targets(n):
          out.append((n, t))
      elif k == 'Lambda':
        ids = n.get('insts') or [n['id']]
        for i in ids:
          if i in self.funcs:
            out.append((n, self.funcs[i]))
      elif k == 'Ref' and n.get('dk') == 'func':
        for t in self.targets(n):
          out.append((n, t))
      elif k == 'Decl':
        for d in n['d']:
          r = (d.get('t') or {}).get('rec')
          dt = self.dtor_of(d.get('t'))
          if dt:
            out.append((n, dt))
    self._cg[fid] = out
    return out

  def dtor_of(self, t):
    if not t or t.get('ref') or t.get('ptr'):
      return None
    r = self.records.get(t.get('rec') or '')
    if r and r.get('udtor'):
      return self.funcs.get(r.get('dtor'))
    return None

  def reach(self, f):
    """functions reachable from f (including f)"""
    fid = f['id']
    if fid in self._reach:
      return self._reach[fid]
    seen, st = {fid: f}, [f]
    while st:
      x = st.pop()
      for _, t in self.edges(x):
        if t['id'] not in seen:
          seen[t['id']] = t
          st.append(t)
    self._reach[fid] = seen
    return seen

  def callers(self):
    out = {}
    for f in self.funcs.values():
      for n, t in self.edges(f):
        out.setdefault(t['id'], []).append((f, n))
    return out

  # ---- modification sets: qualified field names / global names possibly written
  def base_field(self, e):
    """fields/globals on the access path of an lvalue expression"""
    out = []
    while isinstance(e, dict):
      k = e['k']
      if k == 'Mem':
        out.append(e['q'])
        e = e.get('b')
      elif k == 'Ref':
        if e.get('dk') in ('global', 'slocal'):
          out.append('::' + (e.get('q') or e['n']))
        break
      elif k in ('Idx', 'Un', 'Cast'):
        e = e.get('a')
      elif k == 'Call':
        # element access through containers, smart pointers, moves
        if e.get('o') is not None:
          e = e['o']
        elif e.get('a'):
          e = e['a'][0]
        else:
          break
      elif k == 'Cond':
        out += self.base_field(e.get('a')) + self.base_field(e.get('b'))
        break
      elif k == 'Bin':
        e = e.get('a')
      else:
        break
    return out

  def direct_mods(self, f):
    out = set()
    for i in f.get('inits', []):
      if i.get('fq'):
        pass
    for n in self.nodes(f):
      k = n['k']
      if k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
        out.update(self.base_field(n['a']))
      elif k == 'Un' and ('++' in n['op'] or '--' in n['op']):
        out.update(self.base_field(n['a']))
      elif k == 'Un' and n['op'] == '&':
        out.update(self.base_field(n['a']))
      elif k == 'Call':
        c = callee(n)
        if c:
          if n.get('o') is not None and not c.get('const') and not c.get('static'):
            if c['id'] not in self.funcs and not (c.get('virt') and self.targets(n)):
              out.update(self.base_field(n['o']))
          for a, p in zip(n['a'], c.get('pt', [])):
            if p.get('ref') and not p.get('const'):
              out.update(self.base_field(a))
      elif k == 'Decl':
        for d in n['d']:
          if d.get('ref') and d.get('init') and not (d.get('t') or {}).get('const'):
            out.update(self.base_field(d['init']))
      elif k == 'RangeFor':
        v = n['var']
        if v.get('ref') and not (v.get('t') or {}).get('const'):
          out.update(self.base_field(n['range']))
      elif k == 'Delete':
        out.update(self.base_field(n['a']))
    return out

  def latches(self):
    """{global name: constant} for flags that are only ever assigned that one constant"""
    if getattr(self, '_latch', None) is not None:
      return self._latch
    seen = {}

    def visit(n, parent):
      if n['k'] == 'Ref' and n.get('dk') == 'global':
        g = n.get('q') or n['n']
        c = callee(parent) if parent and parent['k'] == 'Call' else None
        w = None
        if parent is None:
          w = 'other'
        elif parent['k'] == 'Cast' and parent.get('ck') == 'LValueToRValue':
          return
        elif c and parent.get('o') is n:
          if c.get('const'):
            return
          w = _const(parent['a'][0]) if c['n'] in ('store', 'operator=') and parent['a'] else 'other'
        elif c and c['n'] == 'operator=' and len(parent['a']) > 1 and parent['a'][0] is n:
          w = _const(parent['a'][1])
        elif parent['k'] == 'Bin' and parent['op'] == '=' and parent['a'] is n:
          w = _const(parent['b'])
        elif parent['k'] == 'Cast' or parent['k'] == 'Mem':
          w = 'other'
        else:
          w = 'other'
        seen.setdefault(g, set()).add(w)
      for x in children(n):
        visit(x, n)
    for f in self.funcs.values():
      for i in f.get('inits', []):
        if i.get('e'):
          visit(i['e'], None)
      visit(f['body'], None)
    self._latch = {g: next(iter(v)) for g, v in seen.items() if len(v) == 1 and isinstance(next(iter(v)), int)}
    return self._latch

  def mods(self, f):
    if self._mods is None:
      self._mods = {}
    r = self._mods.get(f['id'])
    if r is None:
      if not hasattr(self, '_dm'):
        self._dm = {}
      r = set()
      for g in self.reach(f).values():
        if g['id'] not in self._dm:
          self._dm[g['id']] = self.direct_mods(g)
        r |= self._dm[g['id']]
      self._mods[f['id']] = r
    return r


def _const(e):
  while isinstance(e, dict) and e['k'] == 'Cast':
    e = e.get('a')
  if isinstance(e, dict) and e['k'] in ('Int', 'Enum'):
    return e['v']
  return None


_loaded = {}


def load(*names):
  names = names or facts.PROGRAMS
  need = [n for n in names if n not in _loaded]
  if need:
    for n, d in facts.load(need).items():
      _loaded[n] = Program(n, d)
  return [_loaded[n] for n in names] if len(names) > 1 else _loaded[names[0]]

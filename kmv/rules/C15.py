"""C15: no exception leaves the event handling of a program."""
from .common import *

TECHNIQUE = 'interprocedural exception-effect analysis over the clang AST: every raising construct is propagated through the call graph to the handlers enclosing the calls, up to the entry points of each program'
NOTE = ('Raising constructs are throw expressions, conversions of texts to numbers, construction of regular expressions, file system operations without error code and checked accesses; '
  'checked accesses outside of handlers are additionally decided by abstract interpretation of the function containing them. '
  'Failing allocation, exceptions of libraries other than the standard library and of matching a valid regular expression are not considered.')

NUMBERS = {'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold'}
STATUS = {'status', 'symlink_status', 'exists', 'is_block_file', 'is_character_file', 'is_directory', 'is_fifo', 'is_other', 'is_regular_file',
  'is_socket', 'is_symlink', 'file_size', 'hard_link_count', 'last_write_time', 'refresh', 'assign', 'replace_filename'}
# file system functions which do not raise or only on failing allocation
LEXICAL = {'path', 'swap', 'hash_value', 'operator/', 'operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=', 'operator<<', 'operator>>',
  'begin', 'end', 'u8path', 'status_known', 'operator|', 'operator&', 'operator|=', 'operator&=', 'operator^', 'operator~'}
STD = {'std::filesystem::filesystem_error': 'std::system_error', 'std::system_error': 'std::runtime_error', 'std::regex_error': 'std::runtime_error',
  'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error', 'std::runtime_error': 'std::exception',
  'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error', 'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
  'std::logic_error': 'std::exception', 'std::bad_optional_access': 'std::exception', 'std::bad_variant_access': 'std::exception', 'std::bad_any_cast': 'std::bad_cast',
  'std::bad_cast': 'std::exception', 'std::bad_alloc': 'std::exception', 'std::bad_function_call': 'std::exception'}
POSITION = {'substr', 'erase', 'insert', 'replace', 'compare', 'copy', 'at'}


def check(ctx):
  ctx.rule('caught', 'what can be raised is caught by a handler for it before it leaves an entry point, a destructor or a function not allowed to raise')
  total = handlers = 0
  for name in ('keymapper', 'keymapperd', 'keymapperctl'):
    P = load(name)
    a = C15(ctx, P, name)
    a.decide()
    total += len(a.sites)
    handlers += a.handlers
  ctx.need('raising constructs', total, 40)
  ctx.need('handlers', handlers, 5)


class C15:
  def __init__(self, ctx, P, name):
    self.ctx, self.P, self.name = ctx, P, name
    self.sites = {}
    self.handlers = 0
    called = {}
    for f in P.funcs.values():
      for n in P.nodes(f):
        if n['k'] == 'Call':
          for t in P.targets(n):
            called.setdefault(t['id'], 0)
            called[t['id']] += 1
    self.called = called
    self.owner = {}
    for f in P.funcs.values():
      for n in P.nodes(f):
        if n['k'] == 'Lambda':
          for i in n.get('insts') or [n['id']]:
            self.owner[i] = f
    self.memo = {}
    self.compiled = {}

  # ------------------------------------------------------------------ sources
  def source(self, f, n):
    """[(exception, what, conditional)] a node raises by itself"""
    k = n['k']
    if k == 'Throw':
      t = (n.get('tt') or {}).get('rec')
      return [(bare(t) if t else None, 'throw', False)] if n.get('a') is not None else []
    if k == 'RangeFor':
      t = ((n.get('range') or {}).get('t') or {}).get('rec') or ''
      if bare(t) in ('std::filesystem::directory_iterator', 'std::filesystem::recursive_directory_iterator'):
        return [('std::filesystem::filesystem_error', 'advancing a directory iterator', 'iterate')]
      return []
    if k not in ('Call', 'Ctor'):
      return []
    c = callee(n)
    if not c or c.get('noexcept') or c['id'] in self.P.funcs:
      return []
    q, name = c.get('q') or '', c['n']
    if not q.startswith('std::'):
      return []
    if name in NUMBERS and q == 'std::' + name:
      return [('std::invalid_argument', name, False), ('std::out_of_range', name, False)]
    if 'basic_regex<' in q and (k == 'Ctor' or name in ('assign', 'operator=')):
      if any((a.get('t') or {}).get('ptr') or 'basic_string' in ((a.get('t') or {}).get('rec') or (a.get('t') or {}).get('s') or '') for a in n.get('a', [])):
        return [('std::regex_error', 'construction of a regular expression', False)]
      return []
    if q.startswith('std::filesystem::'):
      if any('error_code' in str(p.get('rec') or p.get('s') or '') for p in c.get('pt', [])):
        return []
      cls = c.get('cls') or ''
      if q.startswith('std::filesystem::path::') or (not cls and name in LEXICAL):
        return []
      if 'directory_iterator' in q:
        if name == 'operator++' or (k == 'Ctor' and n.get('a') and not 'directory_iterator' in str((n['a'][0].get('t') or {}).get('rec') or '')):
          return [('std::filesystem::filesystem_error', name, 'iterate' if name == 'operator++' else False)]
        return []
      if 'directory_entry' in q:
        return [('std::filesystem::filesystem_error', name, False)] if name in STATUS else []
      if 'file_status' in q or 'filesystem_error' in q or 'space_info' in q:
        return []
      if not cls:
        # queries of a known status
        if c.get('pt') and 'file_status' in str(c['pt'][0].get('rec') or ''):
          return []
        return [('std::filesystem::filesystem_error', name, False)]
      return []
    if 'wstring_convert' in q and name in ('from_bytes', 'to_bytes'):
      return [('std::range_error', name, False)]
    if name == 'value' and 'optional<' in q:
      return [('std::bad_optional_access', 'access to a missing value', 'value')]
    if name == 'any_cast':
      return [('std::bad_any_cast', name, False)]
    if name == 'at' or (name in POSITION and 'basic_string' in q and self.positional(c)):
      return [('std::out_of_range', name, 'position')]
    return []

  def positional(self, c):
    p = (c.get('pt') or [None])[0]
    return p is not None and not p.get('rec') and not p.get('ptr') and p.get('bits') == 64

  # --------------------------------------------------------------- propagation
  def base(self, t):
    r = self.P.records.get(t)
    if r and r.get('bases'):
      return [b if isinstance(b, str) else b.get('q') for b in r['bases']]
    return [STD[t]] if t in STD else []

  def handled(self, t, h):
    if h.get('t') is None:
      return True
    ht = bare(h['t'].get('rec') or h['t'].get('b') or '')
    work, seen = [t], set()
    while work:
      x = bare(work.pop() or '')
      if x == ht:
        return True
      if x and x not in seen:
        seen.add(x)
        work += self.base(x)
    return False

  def items(self, f, n, guards, out):
    """[(enclosing handlers, raised exception and site or called function)] of a node and below"""
    if not isinstance(n, dict):
      return
    k = n['k']
    if k == 'Try':
      self.items(f, n['b'], (tuple((h, any(x['k'] == 'Throw' and x.get('a') is None for x in walk(h['b']))) for h in n['h']),) + guards, out)
      for h in n['h']:
        self.items(f, h['b'], guards, out)
      return
    if k == 'Lambda':
      for i in n.get('insts') or [n['id']]:
        # lambdas called by name raise where they are called
        if i in self.P.funcs and not self.called.get(i):
          out.append((guards, None, i))
    for s in self.source(f, n):
      self.sites.setdefault((n['_i'], s[0]), (f, n, s))
      out.append((guards, (s[0], n['_i']), None))
    if k in ('Call', 'Ctor') or (k == 'Ref' and n.get('dk') == 'func'):
      for g in self.P.targets(n):
        out.append((guards, None, g['id']))
    for x in children(n):
      self.items(f, x, guards, out)

  def leaves(self, t, guards):
    for handlers in guards:
      for h, again in handlers:
        if self.handled(t, h):
          if not again:
            return False
          break
    return True

  def function(self, f):
    l = self.compiled.get(f['id'])
    if l is None:
      l = self.compiled[f['id']] = []
      for x in f.get('inits', []):
        if x.get('e'):
          self.items(f, x['e'], (), l)
      self.items(f, f['body'], (), l)
    out = {}
    for guards, own, g in l:
      if own is not None:
        if own not in out and self.leaves(own[0], guards):
          out[own] = ()
        continue
      for key, chain in self.memo.get(g, {}).items():
        if key not in out and len(chain) < 30 and self.leaves(key[0], guards):
          out[key] = (g,) + chain
    return out

  def cannot(self, f, n, s):
    """a checked access is shown not to fail in the function containing it or in all its callers"""
    if s[2] not in ('value', 'position'):
      return False
    while f.get('lambda') and f['id'] in self.owner:
      f = self.owner[f['id']]
    return self.decided(f, n, s, f) or self.from_callers(f, n, s, 2)

  def from_callers(self, f, n, s, depth):
    l = [g for g in self.P.funcs.values() if any(t['id'] == f['id'] for _, t in self.P.edges(g))]
    return bool(l) and len(l) <= 12 and f['q'] != 'main' and all(self.decided(g, n, s, f) or (depth > 1 and self.from_callers(g, n, s, depth - 1)) for g in l)

  def decided(self, f, n, s, target):
    hits = []

    def on_call(I, st, ev):
      if ev.node.get('_i') != n['_i']:
        return None
      if s[2] == 'value':
        h = I.load(st, F(ev.obj, HAS))
        hits.append(I.truth(st, h) is True or I.truth(st, eq(h, C0)) is False)
      else:
        size = I.sizeterm(st, ev.obj)
        pos = I.rv(st, ev.args[0])
        hits.append(I.truth(st, cmp('<' if s[1] == 'at' else '<=', pos, size)) is True)
      return None
    try:
      I = Interp(self.P, Spec(interest=lambda x: x.get('_i') == n['_i'] or self.leads(x, target), on_call=on_call, cap=60, retcap=60))
      I.run(f, (), obj=mk('OBJ', f['cls']) if f.get('cls') and not f.get('static') else None)
    except AnalysisError:
      return False
    self.ctx.used(I)
    return bool(hits) and all(hits)

  def leads(self, x, target):
    return x['k'] in ('Call', 'Ctor') and any(t['id'] == target['id'] for t in self.P.targets(x))

  def decide(self):
    P, ctx = self.P, self.ctx
    funcs = list(P.funcs.values())
    callers = {}
    for f in funcs:
      for _, g in P.edges(f):
        callers.setdefault(g['id'], set()).add(f['id'])
    for i, f in self.owner.items():
      callers.setdefault(i, set()).add(f['id'])
    work = {f['id'] for f in funcs}
    while work:
      i = work.pop()
      f = P.funcs[i]
      r = self.function(f)
      if set(r) != set(self.memo.get(i, {})):
        self.memo[i] = r
        work |= callers.get(i, set())
    self.handlers = sum(len(n['h']) for f in funcs for n in P.nodes(f) if n['k'] == 'Try')
    for f in funcs:
      ctx.fns.add(f['q']) if hasattr(ctx.fns, 'add') else None
    roots = self.roots(funcs)
    ctx.need('entry points of ' + self.name, len(roots), 1)
    escaped, safe = set(), {}
    for f, why in roots:
      for (t, i), chain in self.memo.get(f['id'], {}).items():
        g, n, s = self.sites[(i, t)]
        if (i, t) not in safe:
          safe[(i, t)] = self.cannot(g, n, s)
        if safe[(i, t)]:
          continue
        escaped.add((i, t))
        via = [P.funcs[c]['q'] for c in chain]
        ctx.ob('caught', '%s: %s in %s' % (self.name, t, g['q']), False, P.where(g, n), '%s (%s) is not caught before it leaves %s%s' % (t, s[1], why, ' through ' + ', '.join(via[:8]) if via else ''))
    for (i, t), (g, n, s) in self.sites.items():
      if (i, t) not in escaped:
        ctx.ob('caught', '%s: %s in %s' % (self.name, t, g['q']), True, P.where(g, n), '')

  def roots(self, funcs):
    P = self.P
    out = []
    taken, never = {}, set()
    for f in funcs:
      for n in P.nodes(f):
        c = callee(n) if n['k'] in ('Call', 'Ctor') else None
        if c and c.get('noexcept') and c['id'] in P.funcs:
          never.add(c['id'])
        if n['k'] == 'Call':
          for a in n.get('a', []):
            for x in walk(a):
              if x['k'] == 'Ref' and x.get('dk') == 'func' and c and c['id'] not in P.funcs and not (c.get('q') or '').startswith('std::'):
                for g in P.targets(x):
                  taken[g['id']] = g
    for f in funcs:
      if f['q'] == 'main':
        out.append((f, 'the main function'))
      elif f.get('dtor'):
        out.append((f, 'a destructor'))
      elif f['id'] in never:
        out.append((f, 'a function declared not to raise'))
      elif f['id'] in taken:
        out.append((f, 'a function called by a library'))
    return out

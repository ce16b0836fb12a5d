"""C23: key numbers of terminal commands and logical keys."""
from .common import *
from .C26 import subterms

TECHNIQUE = 'abstract interpretation of the key allocation with interval and equality analysis over the clang AST, who-may-modify query on the allocation tables'
NOTE = ('The number given to a command or logical key is shown to be the first number of its kind plus the number of definitions so far and to stay within the reserved range; '
  'that definitions are never removed while a configuration is read is decided for all writers of the tables.')

APPEND = ('push_back', 'emplace_back')
SHRINK = ('erase', 'pop_back', 'resize', 'assign', 'insert', 'emplace', 'swap', 'operator=', 'clear', 'shrink_to_fit')


def tables(P):
  """(field of the list, first, last, name)"""
  if not any(f['n'] == 'actions' for f in P.records['Config']['fields']):
    raise AnalysisError('actions of the configuration not found')
  logical = None
  for f in P.records['ParseConfig']['fields']:
    for t in (f['t'] or {}).get('ta') or []:
      r = P.records.get(bare(t))
      if r and bare(f['t'].get('rec') or '') in ('std::vector', 'std::deque') and any(x['n'] == 'both' for x in r['fields']):
        logical = ('ParseConfig::' + f['n'], r['q'] + '::both')
  if not logical:
    raise AnalysisError('list of logical keys not found')
  v = lambda n: enum_val(P, 'Key', n)
  return (('Config::actions', None, v('first_action'), v('last_action'), 'terminal command'),
    logical + (v('first_logical'), v('last_logical'), 'logical key'))


def check(ctx):
  ctx.rule('number', 'a definition is given the first number of its kind plus the number of earlier definitions, within the reserved range')
  ctx.rule('own', 'the alternatives of a logical key are keys found by name or numbers allocated for this definition')
  ctx.rule('kept', 'definitions are only added one by one while a configuration is read')
  P = load('keymapper')
  for t in tables(P):
    allocation(ctx, P, *t)
    writers(ctx, P, t[0], t[4])


def appends(P, f, field):
  for n in P.nodes(f):
    c = callee(n) if n['k'] == 'Call' else None
    if c and c['n'] in APPEND and n.get('o') is not None and P.base_field(n['o'])[:1] == [field]:
      yield n


def is_key(t):
  return bool(t) and t.get('enum') == 'Key'


def allocation(ctx, P, field, member, first, last, what):
  nodes = {}
  for f in P.funcs.values():
    for n in appends(P, f, field):
      nodes[n['_i']] = n
  ctx.need('additions of a %s' % what, len(nodes), 1)
  inside = {f['id'] for f in P.funcs.values() if not f.get('implicit') and any(set(x['_i'] for x in appends(P, g, field)) for g in P.reach(f).values())}
  # functions returning the number; helpers of them are analysed as part of them
  give = [P.funcs[i] for i in inside if is_key(P.funcs[i].get('ret')) and P.funcs[i].get('cls') == 'ParseConfig']
  called = {t['id'] for f in give for n, t in P.edges(f) if t['id'] != f['id']}
  roots = [f for f in give if f['id'] not in called]
  if not roots:
    raise AnalysisError('function providing the number of a %s not found' % what)
  for f in roots:
    number(ctx, P, f, field, member, first, last, what, set(nodes))
  ctx.need('functions providing the number of a %s' % what, len(roots), 1)
  if member:
    alternatives(ctx, P, roots, member, what)
  # additions not made by them
  reached = {x['_i'] for f in roots for g in P.reach(f).values() for x in appends(P, g, field)}
  for i, n in nodes.items():
    if i not in reached:
      ctx.ob('number', '%s is numbered' % what, False, 'line %s' % n.get('l'), 'a %s is added without providing its number' % what)


def alternatives(ctx, P, roots, member, what):
  """keys given to a definition do not refer to the number of another one unless it was looked up by its name"""
  n = 0
  ids = {f['id'] for f in roots}
  lookups = {f['id'] for f in P.funcs.values() if is_key(f.get('ret')) and f['id'] not in ids and any('basic_string' in str((p['t'] or {}).get('b')) for p in f['params'])}

  def sources(f, e, seen):
    """expressions a value may come from"""
    if e['k'] == 'Cast':
      return sources(f, e['a'], seen)
    if e['k'] == 'Cond':
      return sources(f, e['a'], seen) + sources(f, e['b'], seen)
    if e['k'] == 'Ref' and e.get('dk') == 'var' and e['d'] not in seen:
      out = []
      for x in P.nodes(f):
        if x['k'] == 'Var' and x.get('d') == e['d'] and x.get('init'):
          out += sources(f, x['init'], seen | {e['d']})
        elif x['k'] == 'Bin' and x['op'] == '=' and x['a']['k'] == 'Ref' and x['a'].get('d') == e['d']:
          out += sources(f, x['b'], seen | {e['d']})
      return out
    return [e]

  for f in P.funcs.values():
    if f['id'] in lookups:
      continue
    for x in P.nodes(f):
      if x['k'] != 'Call' or not any(t['id'] in ids for t in P.targets(x)):
        continue
      for a in x['a']:
        if not is_key(a.get('t')):
          continue
        n += 1
        for e in sources(f, a, frozenset()):
          where = '%s line %s' % (P.where(f), e.get('l'))
          ctx.ob('own', 'alternative at %s' % where, not (e['k'] == 'Mem' and e.get('q') == member), where, 'the number of another definition is used for a %s' % what)
  ctx.need('alternatives of a %s' % what, n, 2)


def number(ctx, P, fn, field, member, first, last, what, nodes):
  this = mk('OBJ', fn['cls'], 'this')
  got = [0]

  def located(loc):
    return isinstance(loc, T) and loc.k == 'F' and loc.a[1] == field

  def on_call(I, st, ev):
    if ev.node.get('_i') not in nodes or not located(ev.obj):
      return
    size = I.sizeterm(st, ev.obj)
    if any(e[0] == 'added' for e in st.mon):
      ctx.ob('number', 'one %s is added' % what, False, at(I, ev.node), 'more than one %s is added for one number' % what)
    st.mon = st.mon + (('added', size),)
    if member and not ev.args:
      st.mon = st.mon + (('later', ev.obj),)  # set in the added element
    elif member:
      v = I.rv(st, ev.args[0])
      key = I.fld(v, member) if v.k != 'LV' else I.load(st, F(v.a[0], member))
      judge(I, st, key, size, ev.node, 'stored number')

  def judge(I, st, v, size, node, label):
    got[0] += 1
    where = at(I, node) if node.get('k') != 'entry' else P.where(fn)
    ok = isubset(I.interval(st, v), ((first, last),))
    ctx.ob('number', '%s of a %s is in its range (%s)' % (label, what, where), ok, where, 'a %s may get a number outside of the range reserved for it' % what)
    if size is not None:
      d = sub(sub(v, size), C(first))
      own = d is C0 or I.truth(st, eq(d, C0)) is True
      ctx.ob('number', '%s of a %s is its own (%s)' % (label, what, where), own or not ok, where, 'the number of a %s is not determined by its position' % what)

  def on_leave(I, st, f, v, node):
    if f is not fn or node.get('k') != 'entry':
      return
    added = [e[1] for e in st.mon if e[0] == 'added']
    judge(I, st, v, added[0] if added else None, node, 'provided number')
    for e in st.mon:
      if e[0] == 'later':
        judge(I, st, I.load(st, F(E(e[1], added[0]), member)), added[0], node, 'stored number')

  I = Interp(P, Spec(interest=lambda n: n.get('_i') in nodes or is_key(n.get('t')), on_call=on_call, on_leave=on_leave,
    inline=lambda I, f: True if is_key(f.get('ret')) or (f.get('ret') or {}).get('bits') else None))
  I.run(fn, (), obj=this)
  ctx.used(I)
  if not got[0]:
    raise AnalysisError('number of a %s not found' % what)


def writers(ctx, P, field, what):
  start = {f['id'] for f in P.funcs.values() if f.get('cls') == 'ParseConfig' and f['n'] == 'operator()'}
  if not start:
    raise AnalysisError('entry of the configuration parser not found')
  # functions only called at the start of parsing
  cs = P.callers()
  more = True
  while more:
    more = False
    for f in P.funcs.values():
      l = cs.get(f['id'])
      if f['id'] not in start and l and all(g['id'] in start for g, x in l) and not any(True for g in P.reach(f).values() for x in appends(P, g, field)):
        start.add(f['id'])
        more = True
  parent = [r['q'] + '::' + x['n'] for r in P.records.values() for x in r['fields'] if (x['t'] or {}).get('rec') == field.split('::')[0] and r['q'] == 'ParseConfig']
  n = 0
  for f in P.funcs.values():
    if f.get('implicit'):
      continue
    for x in P.nodes(f):
      if parent and f['id'] not in start:
        a = x['a'] if x['k'] == 'Bin' and x['op'] == '=' else x.get('o') if x['k'] == 'Call' and (callee(x) or {}).get('n') in ('operator=', 'swap') else \
          x['a'][0] if x['k'] == 'Call' and (callee(x) or {}).get('n') == 'operator=' and x['a'] else None
        if a is not None and P.base_field(a)[:1] == parent[:1]:
          ctx.ob('kept', '%s list' % what, False, '%s line %s' % (P.where(f), x.get('l')), 'the configuration is replaced while it is read, numbers may be given twice')
      c = callee(x) if x['k'] == 'Call' else None
      if not c or x.get('o') is None or P.base_field(x['o'])[:1] != [field] or c.get('const'):
        continue
      if c['n'] in APPEND:
        n += 1
        continue
      if c['n'] not in SHRINK:
        continue
      n += 1
      ctx.ob('kept', '%s list' % what, f['id'] in start and c['n'] == 'clear', '%s line %s' % (P.where(f), x.get('l')),
        'definitions of a %s are changed (%s), numbers may be given twice' % (what, c['n']))
  ctx.ob('kept', '%s list is only extended' % what, True, field, '')
  ctx.need('modifications of the list of a %s' % what, n, 1)

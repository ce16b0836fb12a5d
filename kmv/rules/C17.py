"""C17: names of keys, numbers of keys and the key codes of the system."""
import re, subprocess
from .common import *
from .C26 import subterms

TECHNIQUE = 'abstract interpretation of the name table and of the lookup by name (path summaries evaluated for every key name), interval analysis of the number ranges, comparison with the key codes of the system headers'
NOTE = ('All names of the table and the documented prefixed names and aliases are decided; the reading of key codes written as numbers is decided as a range. '
  'Names with no conventional system code (Settings, Select, Cancel) are not compared with the headers.')

HEADER = '#include <linux/input-event-codes.h>\n'

# names of the configuration language (UI Events code values) and the kernel's names
CODES = dict(
  Escape='ESC', Minus='MINUS', Equal='EQUAL', Backspace='BACKSPACE', Tab='TAB', BracketLeft='LEFTBRACE', BracketRight='RIGHTBRACE',
  Enter='ENTER', ControlLeft='LEFTCTRL', Semicolon='SEMICOLON', Quote='APOSTROPHE', Backquote='GRAVE', ShiftLeft='LEFTSHIFT',
  Backslash='BACKSLASH', Comma='COMMA', Period='DOT', Slash='SLASH', ShiftRight='RIGHTSHIFT', NumpadMultiply='KPASTERISK',
  AltLeft='LEFTALT', Space='SPACE', CapsLock='CAPSLOCK', ScrollLock='SCROLLLOCK', NumpadSubtract='KPMINUS', NumpadAdd='KPPLUS',
  NumpadDecimal='KPDOT', IntlBackslash='102ND', NumLock='NUMLOCK', IntlRo='RO', Convert='HENKAN', KanaMode='KATAKANAHIRAGANA',
  NonConvert='MUHENKAN', NumpadEnter='KPENTER', ControlRight='RIGHTCTRL', NumpadDivide='KPSLASH', PrintScreen='SYSRQ',
  AltRight='RIGHTALT', Home='HOME', ArrowUp='UP', PageUp='PAGEUP', ArrowLeft='LEFT', ArrowRight='RIGHT', End='END', ArrowDown='DOWN',
  PageDown='PAGEDOWN', Insert='INSERT', Delete='DELETE', AudioVolumeMute='MUTE', AudioVolumeDown='VOLUMEDOWN', AudioVolumeUp='VOLUMEUP',
  Power='POWER', NumpadEqual='KPEQUAL', Pause='PAUSE', NumpadComma='KPCOMMA', Lang1='HANGEUL', Lang2='HANJA', IntlYen='YEN',
  MetaLeft='LEFTMETA', MetaRight='RIGHTMETA', ContextMenu='COMPOSE', BrowserStop='STOP', Again='AGAIN', Props='PROPS', Undo='UNDO',
  Copy='COPY', Open='OPEN', Paste='PASTE', Find='FIND', Cut='CUT', Help='HELP', LaunchApp2='CALC', Sleep='SLEEP', WakeUp='WAKEUP',
  LaunchApp1='FILE', LaunchMail='MAIL', BrowserFavorites='BOOKMARKS', BrowserBack='BACK', BrowserForward='FORWARD', Eject='EJECTCD',
  MediaTrackNext='NEXTSONG', MediaPlayPause='PLAYPAUSE', MediaTrackPrevious='PREVIOUSSONG', MediaStop='STOPCD', MediaRewind='REWIND',
  LaunchMediaPlayer='CONFIG', BrowserHome='HOMEPAGE', BrowserRefresh='REFRESH', MediaPlay='PLAYCD', MediaPause='PAUSECD', Prog3='PROG3',
  MediaFastForward='FASTFORWARD', BrowserSearch='SEARCH', BrightnessDown='BRIGHTNESSDOWN', BrightnessUp='BRIGHTNESSUP',
  DisplayToggleIntExt='SWITCHVIDEOMODE', WLAN='WLAN', Fn='FN')
CODES = {k: 'KEY_' + v for k, v in CODES.items()}
CODES.update({c: 'KEY_' + c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'})
CODES.update({'F%d' % i: 'KEY_F%d' % i for i in range(1, 25)})
CODES.update({'Numpad%d' % i: 'KEY_KP%d' % i for i in range(10)})
CODES.update(ButtonLeft='BTN_LEFT', ButtonRight='BTN_RIGHT', ButtonMiddle='BTN_MIDDLE', ButtonBack='BTN_SIDE', ButtonForward='BTN_EXTRA')

LOOKUP = ('lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'find', 'find_if', 'at', 'count', 'contains')
SEARCH = ('lower_bound', 'upper_bound', 'equal_range', 'binary_search')
ADD = ('emplace_back', 'push_back', 'emplace', 'insert', 'try_emplace', 'insert_or_assign')


def system_codes():
  p = subprocess.run(['clang', '-E', '-dM', '-x', 'c', '-'], input=HEADER, capture_output=True, text=True)
  if p.returncode:
    raise AnalysisError('key codes of the system not available: ' + p.stderr[:200])
  m = dict(re.findall(r'^#define ((?:KEY|BTN)_\w+)\s+(\S+)', p.stdout, re.M))

  def value(n, depth=0):
    v = m.get(n)
    if v is None or depth > 5:
      return None
    try:
      return int(v, 0)
    except ValueError:
      return value(v, depth + 1)
  return value


def check(ctx):
  ctx.rule('unique', 'no two keys have the same name')
  ctx.rule('code', 'the number of a key is the system\'s code of this key')
  ctx.rule('back', 'a name is looked up as the key it is the name of')
  ctx.rule('ranges', 'physical, virtual, action, logical and special keys are told apart by their numbers')
  P = load('keymapper')
  table = names(ctx, P)
  codes(ctx, P, table)
  kinds = ranges(ctx, P, table)
  entries(ctx, P, table)
  ordering(ctx, P)
  lookup(ctx, P, table, kinds)


def names(ctx, P):
  f = P.find1('get_key_name')
  I = Interp(P, Spec(cap=10**6, retcap=10**6))
  table = {}
  for st, v in I.run(f, ()):
    key = [k for k in st.facts if any(x.k == 'PARAM' for x in subterms(k))]
    if v.k == 'c' and v.a[0] == 0:
      continue
    if v.k != 's' or len(key) != 1:
      raise AnalysisError('name of keys not determined: %s' % v)
    for lo, hi in st.facts[key[0]]:
      if not hi - lo < 1000:
        raise AnalysisError('name of a whole range of keys: %s' % v)
      for k in range(int(lo), int(hi) + 1):
        table.setdefault(v.a[0], set()).add(k)
  ctx.used(I)
  ctx.need('named keys', len(table), 150)
  for n, ks in sorted(table.items()):
    ctx.ob('unique', 'name %s' % n, len(ks) == 1, P.where(f), 'the keys %s are all named %s' % (', '.join(hex(k) for k in sorted(ks)), n))
    if not re.fullmatch(r'[A-Za-z0-9_]+', n):
      ctx.ob('unique', 'name %s' % n, False, P.where(f), 'the name %s of key %#x cannot be written in a configuration' % (n, min(ks)))
  return {n: min(ks) for n, ks in table.items()}


def codes(ctx, P, table):
  value = system_codes()
  n = 0
  e = P.enums['Key']
  lines = {}
  for x in e['e']:
    lines.setdefault(x['v'], x['l'])
  for name, code in sorted(CODES.items()):
    v = value(code)
    if v is None or name not in table:
      continue
    n += 1
    ctx.ob('code', 'code of %s' % name, table[name] == v, '%s:%s' % (P.rel(e), lines.get(table[name], e['l'])),
      'the key named %s has the number %#x, but the code %s of the system is %#x' % (name, table[name], code, v))
  ctx.need('names with a system code', n, 140)


def region(ctx, P, q):
  """numbers accepted by a predicate"""
  f = P.find1(q)
  I = Interp(P, Spec(cap=10**6, retcap=10**6))
  yes, no = [], []
  for st, v in I.run(f, ()):
    key = [k for k in st.facts if k.k == 'PARAM' or k.k in ('ini', 'D')]
    rng = st.facts[key[0]] if key else ((0, 0xFFFF),)
    t = I.interval(st, v)
    if 0 not in [x for lo, hi in t for x in (lo, hi)] and not any(lo < 0 < hi for lo, hi in t):
      yes += rng
    elif t == ((0, 0),):
      no += rng
    else:
      raise AnalysisError('%s is not decided for %s' % (q, rng))
  ctx.used(I)
  return tuple((max(lo, 0), min(hi, 0xFFFF)) for lo, hi in yes)


def meet(a, b):
  return [(max(x[0], y[0]), min(x[1], y[1])) for x in a for y in b if max(x[0], y[0]) <= min(x[1], y[1])]


def ranges(ctx, P, table):
  v = lambda n: enum_val(P, 'Key', n)
  R = {'virtual': region(ctx, P, 'is_virtual_key'), 'action': region(ctx, P, 'is_action_key'),
    'physical': region(ctx, P, 'is_device_key'), 'logical': ((v('first_logical'), v('last_logical')),)}
  special = {n: ((v(n), v(n)),) for n in ('none', 'any', 'timeout', 'ContextActive', 'unicode_output')}
  where = '%s:%s' % (P.rel(P.enums['Key']), P.enums['Key']['l'])
  allk = dict(R, **special)
  ks = sorted(allk)
  for i, a in enumerate(ks):
    for b in ks[i + 1:]:
      m = meet(allk[a], allk[b])
      ctx.ob('ranges', '%s/%s' % (a, b), not m, where, 'the key number %#x is both %s and %s' % (m[0][0] if m else 0, a, b))
  for a, lo, hi in (('virtual', 'first_virtual', 'last_virtual'), ('action', 'first_action', 'last_action')):
    ctx.ob('ranges', '%s keys' % a, cover(R[a]) == ((v(lo), v(hi)),), where, 'keys %#x to %#x are not all told to be %s keys, or others are' % (v(lo), v(hi), a))
  ctx.ob('ranges', 'number of virtual keys', v('last_virtual') - v('first_virtual') == 255, where, 'the virtual keys Virtual0 to Virtual255 do not have a number each')
  # kinds of physical keys
  sub = {k: region(ctx, P, q) for k, q in (('keyboard', 'is_keyboard_key'), ('button', 'is_mouse_button'), ('wheel', 'is_mouse_wheel'))}
  for a, b in (('keyboard', 'button'), ('keyboard', 'wheel'), ('button', 'wheel')):
    m = meet(sub[a], sub[b])
    ctx.ob('ranges', '%s/%s' % (a, b), not m, where, 'the key number %#x is told to be both a %s and a %s' % (m[0][0] if m else 0, a, b))
  n = 0
  for name, key in sorted(table.items()):
    want = 'button' if re.fullmatch('Button[A-Z][a-z]+', name) else 'wheel' if re.fullmatch('Wheel[A-Z][a-z]+', name) else 'keyboard' if name in CODES else None
    if want:
      n += 1
      ctx.ob('ranges', 'kind of %s' % name, bool(meet(sub[want], ((key, key),))) and bool(meet(R['physical'], ((key, key),))), where,
        '%s (%#x) is not told to be a physical key (%s)' % (name, key, want))
  ctx.need('physical keys', n, 140)
  for name in ('Shift', 'Control', 'Alt', 'Meta'):
    ctx.ob('ranges', 'logical %s' % name, bool(meet(R['logical'], ((v(name), v(name)),))), where, 'the key %s is not a logical key' % name)
  return R


def cover(rs):
  out = []
  for lo, hi in sorted(rs):
    if out and lo <= out[-1][1] + 1:
      out[-1] = (out[-1][0], max(hi, out[-1][1]))
    else:
      out.append((lo, hi))
  return tuple(out)


def entries(ctx, P, table):
  """the lookup table consists of every key with its name"""
  f = P.find1('get_key_name')
  g = P.find1('get_key_by_name')
  inside = P.reach(g)
  roots = [h for h in inside.values() if any(t['id'] == f['id'] for _, t in P.edges(h))]
  if not roots:
    raise AnalysisError('names are not looked up in the names of keys')
  seen, bad, hit = [], {}, [0]
  for h in roots:
    def on_call(I, st, ev):
      if not ev.q:
        return None
      if ev.q == f['q']:
        k = key_of(I, st, ev.args[0])
        a, b = st, st.copy()
        v = mk('name', k)
        I.tr[v] = ((1, INF),)
        return [(a, v), (b, C(0))]
      if ev.q.startswith('std::') and ev.q.rsplit('::', 1)[1] in ADD or ev.q.endswith('::operator[]') and any(x.k == 'name' for a in ev.args for x in subterms(I.rv(st, a))):
        vals = [I.rv(st, a) for a in ev.args]
        ns = {x.a[0] for v in vals for x in subterms(v) if x.k == 'name'}
        ks = {y for v in vals for y in keys_in(v)} - {mk('name', x) for x in ns}
        if ns:
          hit[0] += 1
          for x in ns:
            rng = I.interval(st, x)
            seen.extend(rng)
            if ks and x not in ks and not ev.q.endswith('::operator[]'):
              bad[at(I, ev.node)] = 'a name is stored for another key than the one it is the name of'
      return None
    I = Interp(P, Spec(interest=lambda n: n['k'] in ('Call', 'Ctor') and (callee(n) or {}).get('n') in ADD + (f['n'], 'operator[]'), on_call=on_call, inline=lambda I, fn: False if fn['id'] == f['id'] else None))
    I.run(h, (), obj=mk('OBJ', 'this'))
    ctx.used(I)
  if not hit[0]:
    raise AnalysisError('no name is added to the names looked up')
  ctx.need('additions to the names looked up', hit[0], 1)
  where = P.where(roots[0])
  for w, t in bad.items():
    ctx.ob('back', 'entry', False, w, t)
  cov = cover(seen)
  for n, k in sorted(table.items()):
    ctx.ob('back', 'entry of %s' % n, bool(meet(cov, ((k, k),))), where, 'the key %s (%#x) is not among the names looked up, so its name is not accepted' % (n, k))


def key_of(I, st, a):
  v = I.rv(st, a)
  while v.k == 'addr' or v.k == 'LV':
    v = I.load(st, v.a[0])
  return v


def keys_in(v):
  if v.k == 'rec':
    return [y for _, x in v.a[1] for y in keys_in(x)]
  if v.k == 'list':
    return [y for x in v.a for y in keys_in(x)]
  return [v]


def direction(P, lam):
  """(field, operator) a comparator orders by, when recognised"""
  out = set()
  for i in lam.get('insts') or [lam['id']]:
    f = P.funcs.get(i)
    if not f or len(f['params']) != 2:
      continue
    idx = {p.get('d', p['n']): j for j, p in enumerate(f['params'])}
    rets = [n for n in P.nodes(f) if n['k'] == 'Ret']
    if len(rets) != 1:
      return None
    e = rets[0].get('a') or rets[0].get('e')
    while e and e['k'] in ('Cast', 'Paren', 'Temp', 'Clean', 'Bind'):
      e = e.get('a')
    if not e:
      return None
    op = e.get('op') if e['k'] == 'Bin' else (callee(e) or {}).get('n', '').replace('operator', '') if e['k'] == 'Call' else None
    if op not in ('<', '>'):
      return None
    ab = [e['a'], e['b']] if e['k'] == 'Bin' else ([e['o']] if e.get('o') is not None else []) + list(e['a'])
    if len(ab) != 2:
      return None
    pos, fields = [], set()
    for x in ab:
      refs = [y for y in walk(x) if y['k'] == 'Ref' and y.get('dk') == 'parm']
      mems = [y['n'] for y in walk(x) if y['k'] == 'Mem' and callee(y) is None]
      if len(refs) != 1:
        return None
      names_ = [p['n'] for p in f['params']]
      if refs[0].get('n') not in names_:
        return None
      pos.append(names_.index(refs[0]['n']))
      fields.update(mems)
    if sorted(pos) != [0, 1] or len(fields) > 1:
      return None
    out.add((tuple(fields), op if pos == [0, 1] else {'<': '>', '>': '<'}[op]))
  return out.pop() if len(out) == 1 else None


def ordering(ctx, P):
  """binary search needs the order the table was sorted in"""
  g = P.find1('get_key_by_name')
  got = {'sort': [], 'search': []}
  for h in P.reach(g).values():
    for n in P.nodes(h):
      c = callee(n) if n['k'] == 'Call' else None
      if not c or not c['q'].startswith('std::'):
        continue
      kind = 'sort' if c['n'] in ('sort', 'stable_sort') else 'search' if c['n'] in SEARCH and not n.get('o') else None
      if kind:
        lam = [x for a in n['a'] for x in walk(a) if x['k'] == 'Lambda']
        got[kind].append((n, h, direction(P, lam[0]) if lam else ('', '<')))
  for n, h, d in got['search']:
    w = '%s:%s' % (P.rel(h), n.get('l'))
    if not got['sort']:
      ctx.ob('back', 'order', False, w, 'names are searched by bisection but the table is not sorted by name')
    for m, _, e in got['sort']:
      if d and e and d != ('', '<') and e != ('', '<'):
        ctx.ob('back', 'order', d == e, w, 'names are searched in another order than they are sorted in')


def evaluate(t, name, param):
  """value of a term for a name; None when unknown"""
  if t is param:
    return name
  if t.k == 'c':
    return t.a[0]
  if t.k == 's':
    return t.a[0]
  if t.k == 'substr':
    s, v = evaluate(t.a[0], name, param), [evaluate(x, name, param) for x in t.a[1]]
    if s is None or None in v or not v:
      return None
    return s[v[0]:] if len(v) < 2 else s[v[0]:v[0] + v[1]]
  if t.k == 'cut':
    s, k = evaluate(t.a[1], name, param), evaluate(t.a[2], name, param)
    return None if s is None or k is None else s[k:] if t.a[0] else s[:len(s) - k]
  if t.k == 'size':
    s = evaluate(t.a[0], name, param)
    return len(s) if isinstance(s, str) else None
  if t.k == 'elt':
    s, i = evaluate(t.a[0], name, param), evaluate(t.a[1], name, param)
    return ord(s[i]) if isinstance(s, str) and isinstance(i, int) and 0 <= i < len(s) else None
  if t.k == 'num':
    s = evaluate(t.a[0], name, param)
    if s is None:
      return None
    m = re.match(r'\s*[-+]?\d+', s)
    return int(m.group()) if m else 0
  if t.k == 'lin':
    r = t.a[0]
    for x, c in t.a[1]:
      v = evaluate(x, name, param)
      if not isinstance(v, int):
        return None
      r += c * v
    return r
  if t.k in ('starts', 'ends'):
    a, b = evaluate(t.a[0], name, param), evaluate(t.a[1], name, param)
    return None if a is None or b is None else int(a.startswith(b) if t.k == 'starts' else a.endswith(b))
  return None


def difference(t, name, param):
  """the two strings compared by a difference of terms"""
  if t.k == 'lin' and t.a[0] == 0 and len(t.a[1]) == 2 and sorted(c for _, c in t.a[1]) == [-1, 1]:
    (a, _), (b, _) = t.a[1]
    return a, b, evaluate(a, name, param), evaluate(b, name, param)
  return None


def string(I, st, v):
  if v.k == 'addr':
    l = v.a[0]
    return I.load(st, l.a[0] if l.k == 'E' and l.a[1] is C0 else l)
  return v


def mentions(t, param):
  return any(x is param for x in subterms(t))


def lookup(ctx, P, table, kinds):
  g = P.find1('get_key_by_name')
  param = mk('PARAM', g['q'], g['params'][0]['n'], 0)

  def on_call(I, st, ev):
    n = (ev.q or '').rsplit('::', 1)[-1]
    if n in ('atoi', 'atol', 'stoi', 'stoul', 'stol', 'strtol', 'strtoul') and ev.args:
      v = mk('num', key_of(I, st, ev.args[0]))
      I.tr[v] = ((-2**31, 2**31 - 1),)
      return [(st, v)]
    if n == 'compare' and ev.q and 'basic_string' in ev.q and len(ev.args) in (1, 3) and ev.obj is not None:
      a = key_of(I, st, ev.obj) if ev.obj.k == 'LV' else I.load(st, ev.obj)
      vals = [I.rv(st, x) for x in ev.args]
      if len(vals) == 3:
        a = mk('substr', a, tuple(vals[:2]))
      return [(st, sub(a, string(I, st, vals[-1])))]
    if n in ('operator==', 'operator!=') and len(ev.args) == 2:
      # compared with the names of the table
      vals = [I.rv(st, x) for x in ev.args]
      for a, b in (vals, vals[::-1]):
        if mentions(a, param) and b.k != 's' and not mentions(b, param) and any(x.k == 'elt' for x in subterms(b)):
          if ('==', a) not in st.mon:
            st.mon = st.mon + (('==', a),)
    if ev.q and n in LOOKUP and 'basic_string' not in ev.q:
      for a in ev.args:
        v = I.rv(st, a)
        if mentions(v, param) and v.k in ('PARAM', 'substr', 'cut'):
          st.mon = st.mon + ((n, v),)
    return None

  def on_write(I, st, loc, v, node):
    # what is left of the name keeps paths apart
    if v.k in ('substr', 'cut') and mentions(v, param):
      st.mon = st.mon + (('left', v),)
  I = Interp(P, Spec(interest=lambda n: True, on_call=on_call, on_write=on_write, cap=10**6, retcap=10**6))
  paths = I.run(g, ())
  ctx.used(I)
  ctx.need('paths of the lookup', len(paths), 8)
  where = P.where(g)
  v = lambda n: enum_val(P, 'Key', n)
  cases = dict(table)
  cases.update({'Key' + c: table[c] for c in table if re.fullmatch('[A-Z]', c)})
  cases.update({'Digit' + c: table[c] for c in table if re.fullmatch('[0-9]', c)})
  for i in range(256):
    cases['Virtual%d' % i] = v('first_virtual') + i
  cases.update({'Any': v('any'), 'Shift': v('Shift'), 'Control': v('Control'), 'Alt': v('Alt'), 'Meta': v('Meta')})
  if 'MetaLeft' in table and 'MetaRight' in table:
    cases.update({'OSLeft': table['MetaLeft'], 'OSRight': table['MetaRight']})
  # paths share most of their facts
  empty = lambda st: any(t.k == 'size' and not mentions(t, param) and all(hi <= 0 for _, hi in rng) for t, rng in st.facts.items())
  todo = [(st, r, [(t, rng) for t, rng in st.facts.items() if mentions(t, param)]) for st, r in paths if not empty(st)]
  open_ = []
  for name, key in sorted(cases.items()):
    cache = {}
    got = {}
    for st, r, facts in todo:
      ok, sure, found = True, True, None
      for t, rng in facts:
        if t not in cache:
          d = difference(t, name, param)
          if d and (isinstance(d[2], str) or isinstance(d[3], str)):
            if isinstance(d[2], str) and isinstance(d[3], str):
              cache[t] = ('v', int(d[2] != d[3]))
            else:
              cache[t] = ('e', d[2] if isinstance(d[2], str) else d[3])
          else:
            x = evaluate(t, name, param)
            cache[t] = ('v', x) if isinstance(x, int) else ('?', None)
        k, x = cache[t]
        if k == 'v':
          same = any(lo <= x <= hi for lo, hi in rng)
          if not same:
            ok = False
            break
        elif k == 'e':
          if rng == ((0, 0),):
            found = x
        elif t.k not in ('size', 'elt') and not (len(rng) == 1 and I.tr.get(t) == rng):
          sure = False
      if not ok:
        continue
      if found is not None and found not in table:
        continue
      looked = [evaluate(x, name, param) for k, x in st.mon if k != 'left']
      if any(x.k in ('elt', 'fld', 'mapat', 'ini') and not mentions(x, param) for x in subterms(r)) and r.k != 'c':
        if found is None:
          if any(k in ('lower_bound', 'upper_bound') for k, _ in st.mon):
            got.setdefault(('any key', 'found'), sure)
            continue
          found = looked[-1] if looked else None
        if found is not None and found not in table:
          continue
        if found is None:
          got.setdefault(('?', str(r)[:60]), False)
          continue
        got[table[found]] = got.get(table[found], False) or sure
        continue
      if any(x in table for x in looked):
        continue   # would have been found
      x = evaluate(r, name, param)
      if x == 0 and looked:
        got[('none', 'searched')] = sure
      elif isinstance(x, int):
        got[x & 0xFFFF] = got.get(x & 0xFFFF, False) or sure
      else:
        got[('number', I.interval(st, r))] = got.get(('number', I.interval(st, r)), False) or sure
    if key in got:
      # failing after the search may be what is left of joined paths
      got.pop(('none', 'searched'), None)
    wrong = {k: s for k, s in got.items() if k != key}
    bad = [k for k, s in wrong.items() if s] or ([k for k in wrong] if key not in got else [])
    if key not in got and not wrong:
      bad = ['no key']
    if wrong and not bad:
      open_.append(name)
    ctx.ob('back', 'name %s' % name, not bad, where, 'the name %s (key %#x) is read as %s' % (name, key, text(bad[0]) if bad else ''))
  if open_ and all(o[0] for o in ctx.obls.values()):
    raise AnalysisError('not decided which key is meant by %s' % ', '.join(open_[:5]))
  ctx.need('names looked up', len(cases), 400)
  # numbers computed from the name
  m = 0
  for st, r in paths:
    if r.k == 'c' or any(x.k in ('elt', 'fld', 'mapat', 'ini') and not mentions(x, param) for x in subterms(r)):
      continue
    m += 1
    i = I.interval(st, r)
    ok = any(not outside(i, kinds[k]) for k in ('physical', 'virtual'))
    ctx.ob('ranges', 'number from a name', ok, where, 'a number in a name gives a key number in %s, which is neither a physical nor a virtual key' % (i,))
  ctx.need('numbers computed from names', m, 2)


def outside(a, b):
  b = cover(b)
  return [x for x in a if not any(y[0] <= x[0] and x[1] <= y[1] for y in b)]


def text(k):
  if isinstance(k, tuple):
    return 'a number in %s' % (k[1],) if k[0] == 'number' else 'no key' if k[0] == 'none' else k[0]
  return k if isinstance(k, str) else 'the key %#x' % k if k else 'no key'

"""Models of the standard library operations used by the program."""
from .engine import *
from .engine import _fresh
from .program import callee
from . import strmodel as S

PTRS = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr')
CONT = ('std::vector', 'std::basic_string', 'std::basic_string_view', 'std::array', 'std::initializer_list',
  'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::deque', 'std::list', 'std::bitset')
STRS = ('std::basic_string', 'std::basic_string_view')
HAS, VAL = '$opt::has', '$opt::val'


def opt_some(v):
  return mk('rec', ZERO, ((HAS, C1), (VAL, v)))


OPT_NONE = mk('rec', ZERO, ((HAS, C0),))


class StdModel:
  def __init__(self, I):
    self.I = I

  def abs(self, n, s, v):
    I = self.I
    s2 = s.copy()
    out = []
    if I.assume(s, cmp('>=', v, C0), True):
      out.append((s, v))
    if I.assume(s2, cmp('>=', v, C0), False):
      out.append((s2, I.fit(s2, 'neg', scale(v, -1), n.get('t'), n)))
    return out

  def is_std(self, c):
    q = c['q']
    return q.startswith('std::') or q.startswith('__gnu_cxx::')

  def clsof(self, c):
    x = bare(c.get('cls') or '')
    if x.startswith('std::_Optional_base') or x.startswith('std::_Optional_payload'):
      return 'std::optional'
    if x.startswith('std::_Vector_base'):
      return 'std::vector'
    return x

  # --------------------------------------------------------------------- ctors
  def ctor(self, n, c, s, args):
    I = self.I
    cls = bare(n['q'])
    t = n.get('t') or {}
    rec = bare(t.get('rec') or '')
    cls = rec or cls
    vals = [I.rv(s, a) for a in args]
    real = [a for a, x in zip(args, n['a']) if not x.get('defarg')]
    rvals = [I.rv(s, a) for a in real]
    if cls in ('std::optional',):
      if not real or (n['a'] and 'nullopt' in ((n['a'][0].get('t') or {}).get('rec') or '')):
        return [(s, OPT_NONE)]
      if len(real) == 1 and bare((n['a'][0].get('t') or {}).get('rec') or '') == 'std::optional':
        return [(s, rvals[0])]
      if bare((n['a'][0].get('t') or {}).get('rec') or '') == 'std::in_place_t':
        return [(s, opt_some(rvals[1] if len(rvals) == 2 else fresh('inplace')))]
      return [(s, opt_some(rvals[0]))]
    if cls in PTRS:
      return [(s, rvals[0] if rvals and rvals[0].k != 'zero' else C0)]
    if cls == 'std::function':
      if real and real[0].k == 'LV':
        return [(s, I.load(s, real[0].a[0]))]
      return [(s, rvals[0] if rvals else C0)]
    if cls in ('std::pair', 'std::tuple'):
      if not real:
        return [(s, ZERO)]
      if len(real) == 1 and cls == 'std::pair':
        return [(s, rvals[0])]
      names = ['std::pair::first', 'std::pair::second'] if cls == 'std::pair' else ['std::tuple::_%d' % i for i in range(len(rvals))]
      for i, to in enumerate((t.get('ta') or [])[:len(rvals)]):
        # elements are converted to optionals
        of = (n['a'][i].get('t') or {}).get('rec') or ''
        if isinstance(to, str) and bare(to) == 'std::optional' and bare(of) != 'std::optional':
          rvals[i] = OPT_NONE if 'nullopt' in of else opt_some(rvals[i])
      return [(s, mk('rec', ZERO, tuple(zip(names, rvals))))]
    if cls.startswith('std::chrono::'):
      return [(s, rvals[0] if rvals else C0)]
    if cls in ('std::atomic', 'std::variant', 'std::filesystem::path', 'std::filesystem::__cxx11::path', 'std::reference_wrapper'):
      return [(s, rvals[0] if rvals else (mk('s', '') if 'path' in cls else C0))]
    if cls == '__gnu_cxx::__normal_iterator' or 'iterator' in cls:
      if not rvals:
        return [(s, fresh('it'))]
      v = rvals[0]
      if cls == 'std::reverse_iterator' and v.k == 'it':
        v = mk('rit', v.a[0], v.a[1])
      return [(s, v)]
    if cls in ('std::basic_string', 'std::basic_string_view', 'std::vector', 'std::initializer_list', 'std::map', 'std::set',
        'std::deque', 'std::unordered_map', 'std::list', 'std::bitset'):
      if not real:
        return [(s, mk('s', '') if cls in STRS else mk('list'))]
      if len(real) == 1:
        v = rvals[0]
        at = n['a'][0].get('t') or {}
        if cls == 'std::vector' and at.get('bits'):
          return [(s, mk('sized', next(_fresh), v))]
        if cls in STRS and v.k == 'addr':
          l = v.a[0]
          if l.k == 'E' and l.a[1] is C0:
            l = l.a[0]
          v = I.load(s, l)
        return [(s, v)]
      if len(rvals) == 2 and rvals[0].k == 'it' and rvals[1].k == 'it' and rvals[0].a[0] is rvals[1].a[0]:
        L, b, e = rvals[0].a[0], rvals[0].a[1], rvals[1].a[1]
        if b is C0 and e is I.sizeterm(s, L):
          return [(s, I.load_whole(s, L))]
        return [(s, mk('slice', I.load_whole(s, L), b, e))]
      if cls in STRS and len(rvals) == 2 and rvals[0].k in ('it', 'addr'):
        return [(s, mk('slice', I.load(s, root(deref(rvals[0]))) if False else rvals[0], C0, rvals[1]))]
      if cls == 'std::basic_string' and len(rvals) == 2 and (n['a'][0].get('t') or {}).get('bits'):
        return [(s, mk('sized', next(_fresh), rvals[0]))]
      if cls == 'std::vector' and len(rvals) == 2 and (n['a'][0].get('t') or {}).get('bits'):
        return [(s, mk('sized', next(_fresh), rvals[0]))]
      return [(s, fresh(cls))]
    if cls in ('std::allocator', 'std::nullopt_t', 'std::error_code', 'std::less'):
      return [(s, ZERO)]
    for a in args:
      if a.k == 'LV' and False:
        I.havoc(s, a.a[0])
    v = mk('new', next(_fresh), cls) if not rvals else mk('obj', cls, tuple(rvals), fresh(cls))
    return [(s, v)]

  # --------------------------------------------------------------------- calls
  def call(self, n, c, ev, s, obj, args):
    if not self.is_std(c):
      return self.cfun(n, c, ev, s, obj, args)
    q = ev.q
    name = c['n']
    I = self.I
    cls = self.clsof(c)
    if name == 'operator[]' or name.startswith('operator '):
      pass
    if cls and obj is None and name.startswith('operator') and n.get('op') and args and not c.get('static'):
      # operator call with object as first argument
      a = args[0]
      if a.k == 'LV':
        obj = a.a[0]
      else:
        obj = mk('TMP', n['_i'], I.frame)
        s.env[obj] = a
      args = args[1:]
    if cls in CONT:
      r = self.container(n, c, cls, name, s, obj, args)
      if r is not None:
        return r
    elif cls == 'std::optional':
      r = self.optional(n, c, name, s, obj, args)
      if r is not None:
        return r
    elif cls in PTRS:
      r = self.smartptr(n, c, name, s, obj, args)
      if r is not None:
        return r
    elif cls.startswith('std::function') or cls == 'std::_Function_base':
      if name == 'operator()':
        return I.call_value(I.load(s, obj), s, list(args), n)
      if name == 'operator=':
        v = I.rv(s, args[0]) if args[0].k != 'LV' else I.load(s, args[0].a[0])
        I.write(s, obj, v, n)
        return [(s, mk('LV', obj))]
      if name == 'operator bool':
        v = I.load(s, obj)
        return [(s, C1 if v.k in ('lam', 'fn', 'bind') else neg(eq(v, C0)))]
    elif 'iterator' in cls:
      r = self.iterator(n, c, name, s, obj, args)
      if r is not None:
        return r
    elif cls == 'std::atomic' or cls == 'std::__atomic_base':
      if name in ('load',) or name.startswith('operator ') :
        return [(s, I.load(s, obj))]
      if name in ('store', 'operator='):
        I.write(s, obj, I.rv(s, args[0]), n)
        return [(s, VOID if name == 'store' else I.load(s, obj))]
      if name == 'exchange':
        v = I.load(s, obj)
        I.write(s, obj, I.rv(s, args[0]), n)
        return [(s, v)]
    elif cls.startswith('std::chrono::'):
      if name == 'now':
        return [(s, fresh('now'))]
      if name in ('count', 'time_since_epoch'):
        return [(s, I.load(s, obj))]
      if name == 'zero':
        return [(s, C0)]
      if name in ('operator=',):
        I.write(s, obj, I.rv(s, args[0]), n)
        return [(s, mk('LV', obj))]
      if name in ('operator+=', 'operator-='):
        I.write(s, obj, I.arith(s, name[8], I.load(s, obj), I.rv(s, args[0]), None), n)
        return [(s, mk('LV', obj))]
    elif cls in ('std::pair', 'std::tuple'):
      if name == 'operator=':
        dst = I.load(s, obj)
        if dst.k == 'tie' and args:
          src = args[0]
          sv = I.rv(s, src)
          for i, l in enumerate(dst.a[0]):
            v = I.fld(sv, 'std::tuple::_%d' % i)
            if v.k == 'fld':
              v = I.fld(sv, ('std::pair::first', 'std::pair::second')[i]) if i < 2 and mentions(sv, lambda x: False) else v
            I.write(s, l, v, n)
          return [(s, VOID)]
        I.write(s, obj, I.rv(s, args[0]), n)
        return [(s, mk('LV', obj))]
    elif cls == 'std::variant':
      if name == 'operator=':
        I.write(s, obj, mk('rec', ZERO, (('$variant::v', I.rv(s, args[0])),)), n)
        return [(s, mk('LV', obj))]
    elif cls.startswith('std::filesystem::') and cls.endswith('path'):
      if name in ('c_str', 'string', 'native', 'generic_string') or name.startswith('operator basic_string') or name.startswith('operator std'):
        return [(s, I.load(s, obj))]
      if name == 'empty':
        return [(s, eq(I.sizeof(I.load(s, obj)), C0))]
      if name == 'operator=':
        I.write(s, obj, I.rv(s, args[0]), n)
        return [(s, mk('LV', obj))]
    elif cls == 'std::numeric_limits':
      return [(s, C(n['cv']))] if 'cv' in n else None
    r = self.free(n, c, q, name, s, args)
    return r

  # ---------------------------------------------------------------- containers
  def newver(self, s, L, size, node):
    I = self.I
    I.kill_under(s, L)
    I.write(s, L, mk('sized', next(_fresh), size), node)

  def ovl(self, s, L):
    """separately stored elements under container L?"""
    return any(k.k in ('E', 'F') and k is not L and under(k, L) for k in s.env)

  def container(self, n, c, cls, name, s, obj, args):
    I = self.I
    L = obj
    ver = I.load(s, L)
    size = I.sizeof(ver)
    t = (n.get('o') or {}).get('t') or {}
    if cls == 'std::array':
      ta = (n.get('o') or {}).get('t') or {}
      for x in (ta.get('ta') or []):
        pass
      nn = self.array_n(ta)
      if nn is not None:
        size = C(nn)
    ismap = cls in ('std::map', 'std::unordered_map')
    if name in ('size', 'length', 'max_size'):
      return [(s, size)]
    if name == 'empty':
      return [(s, eq(size, C0))]
    if name in ('operator[]', 'at'):
      if ismap:
        k = I.rv(s, args[0])
        if k.k == 'c':
          k = mk('mapkey', k)
        if name == 'operator[]' and E(L, k) not in s.env:
          pass
        return [(s, mk('LV', F(E(L, k), 'std::pair::second')))]
      return [(s, mk('LV', E(L, I.rv(s, args[0]))))]
    if name == 'front':
      return [(s, mk('LV', E(L, C0)))]
    if name == 'back':
      return [(s, mk('LV', E(L, sub(size, C1))))]
    if name in ('data',):
      if cls in STRS:
        return [(s, ver)]
      return [(s, mk('addr', E(L, C0)))]
    if name == 'c_str':
      return [(s, ver)]
    if name in ('begin', 'cbegin'):
      return [(s, mk('it', L, C0))]
    if name in ('end', 'cend'):
      return [(s, mk('it', L, size))]
    if name in ('rbegin', 'crbegin'):
      return [(s, mk('rit', L, size))]
    if name in ('rend', 'crend'):
      return [(s, mk('rit', L, C0))]
    if name in ('push_back', 'emplace_back', 'push_front'):
      if ver is ZERO and cls not in STRS and cls != 'std::array':
        ver = mk('list')
      if name == 'emplace_back':
        rs = self.build(n, c, s, args)
      else:
        rs = [(s, I.rv(s, args[0]))]
      out = []
      for s2, v in rs:
        o = self.ovl(s2, L)
        if cls in STRS:
          nv = mk('concat', ver, mk('chr', v))
        elif ver.k == 'list' and len(ver.a) < 12 and all(self.inlist(k, L, len(ver.a)) for k in s2.env):
          nv = mk('list', *(ver.a + (v,)))
        else:
          nv = mk('app', ver, v) if not o and not self.deep(ver) else mk('sized', next(_fresh), add(size, C1))
        # remember elements by index
        keep = {k: x for k, x in s2.env.items() if k.k in ('E', 'F') and k is not L and under(k, L)}
        I.write(s2, L, nv, n)
        s2.env.update(keep)
        if nv.k == 'sized':
          s2.env[E(L, size)] = v
        out.append((s2, mk('LV', E(L, size)) if name == 'emplace_back' else VOID))
      return out
    if name == 'pop_back':
      if ver.k == 'list' and ver.a and not self.ovl(s, L):
        I.write(s, L, mk('list', *ver.a[:-1]), n)
      else:
        self.newver(s, L, sub(size, C1), n)
      return [(s, VOID)]
    if name == 'clear':
      I.write(s, L, mk('s', '') if cls in STRS else mk('list'), n)
      return [(s, VOID)]
    if cls in ('std::set', 'std::unordered_set') and ver.k == 'list' and len(ver.a) <= 8 and not self.ovl(s, L):
      r = self.known_set(n, name, s, L, ver, args)
      if r is not None:
        return r
    if name == 'erase':
      vals = [I.rv(s, a) for a in args]
      if ver.k == 'list' and vals and all(v.k == 'it' and isc(v.a[1]) for v in vals):
        ver = I.load_whole(s, L)
      if ver.k == 'list' and vals and all(v.k == 'it' and isc(v.a[1]) for v in vals):
        b = vals[0].a[1].a[0]
        e = vals[1].a[1].a[0] if len(vals) > 1 else b + 1
        if 0 <= b <= e <= len(ver.a):
          I.kill_under(s, L)
          I.write(s, L, mk('list', *(ver.a[:b] + ver.a[e:])), n)
          return [(s, mk('it', L, C(b)))]
      if cls in STRS and vals and vals[0].k not in ('it',):
        self.newver(s, L, fresh('size'), n)
        return [(s, mk('LV', L))]
      pos = vals[0].a[1] if vals and vals[0].k == 'it' else None
      if len(vals) == 2 and vals[1].k == 'it' and pos is not None:
        nsz = sub(size, sub(vals[1].a[1], pos))
      elif ismap and pos is None:
        nsz = fresh('size')
      else:
        nsz = sub(size, C1)
      self.newver(s, L, nsz, n)
      return [(s, mk('it', L, pos) if pos is not None else fresh('erased'))]
    if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
      vals = [I.rv(s, a) for a in args]
      if ismap or cls in ('std::set', 'std::unordered_set'):
        p = fresh('pos')
        if ismap:
          # replaces what is known about all elements
          self.newver(s, L, fresh('size'), n)
          if len(vals) == 2:
            s.env[F(E(L, p), 'std::pair::first')] = vals[0]
            s.env[F(E(L, p), 'std::pair::second')] = vals[1]
          elif len(vals) == 1:
            s.env[E(L, p)] = vals[0]
        else:
          self.newver(s, L, fresh('size'), n)
        return [(s, mk('rec', ZERO, (('std::pair::first', mk('it', L, p)), ('std::pair::second', fresh('inserted')))))]
      pos = vals[0].a[1] if vals and vals[0].k == 'it' else fresh('pos')
      if len(vals) == 3 and vals[1].k == 'it' and vals[2].k == 'it' and vals[1].a[0] is vals[2].a[0]:
        if size is C0 and not self.ovl(s, L):
          sl = vals[1].a[0]
          if vals[1].a[1] is C0 and vals[2].a[1] is I.sizeterm(s, sl):
            I.write(s, L, I.load_whole(s, sl), n)
          else:
            I.write(s, L, mk('slice', I.load_whole(s, sl), vals[1].a[1], vals[2].a[1]), n)
        else:
          src = I.load_whole(s, vals[1].a[0])
          if pos is size and not self.ovl(s, L) and vals[1].a[1] is C0 and vals[2].a[1] is I.sizeof(src) and not self.deep(ver):
            I.write(s, L, mk('cat', ver, src), n)
          else:
            self.newver(s, L, add(size, sub(vals[2].a[1], vals[1].a[1])), n)
        return [(s, mk('it', L, pos))]
      if len(vals) == 2:
        if pos is C0 and ver.k == 'list' and len(ver.a) < 12 and not self.ovl(s, L):
          I.write(s, L, mk('list', vals[1], *ver.a), n)
        else:
          self.newver(s, L, add(size, C1), n)
          s.env[E(L, pos)] = vals[1]
        return [(s, mk('it', L, pos))]
      self.newver(s, L, fresh('size'), n)
      return [(s, mk('it', L, pos))]
    if name == 'resize':
      nsz = I.rv(s, args[0])
      if nsz is C0:
        I.write(s, L, mk('list'), n)
      elif cls in STRS and not self.ovl(s, L) and (I.interval(s, sub(nsz, size)) or ((0, 1),))[-1][1] <= 0:
        # shortened
        r = S.substr(I, s, ver, C0, nsz)
        I.write(s, L, r if r is not None else mk('substr', ver, (C0, nsz)), n)
      elif isc(nsz) and 0 < nsz.a[0] <= 12 and cls == 'std::vector' and (size is C0 or I.load_whole(s, L).k == 'list'):
        have = () if size is C0 else I.load_whole(s, L).a
        e = (t.get('ta') or [None])[0]
        rec = e if isinstance(e, str) else (e or {}).get('rec')
        out = [(s, ZERO)]
        if nsz.a[0] > len(have) and len(args) > 1 and 'defarg' not in n['a'][-1]:
          out = [(s, I.rv(s, args[1]))]
        elif nsz.a[0] > len(have) and rec in I.P.records and not bare(rec).startswith('std::'):
          out = self.make(rec, n, s, [])
        for s2, v in out:
          I.write(s2, L, mk('list', *(have + (v,) * max(0, nsz.a[0] - len(have)))[:nsz.a[0]]), n)
        return [(s2, VOID) for s2, _ in out]
      else:
        self.newver(s, L, nsz, n)
      return [(s, VOID)]
    if name in ('reserve', 'shrink_to_fit', 'capacity'):
      return [(s, fresh('cap'))]
    if name in ('operator=', 'assign'):
      if len(args) == 1:
        v = I.rv(s, args[0])
        mv = args[0].k == 'LV' and n['a'][-1]['k'] == 'Call' and (callee(n['a'][-1]) or {}).get('n') == 'move'
        I.write(s, L, v, n)
        if mv and cls not in STRS and args[0].a[0] is not L:
          I.write(s, args[0].a[0], mk('list'), n)
      else:
        vals = [I.rv(s, a) for a in args]
        if len(vals) == 2 and vals[0].k == 'it' and vals[1].k == 'it' and vals[0].a[0] is vals[1].a[0]:
          src = vals[0].a[0]
          whole = vals[0].a[1] is C0 and vals[1].a[1] is I.sizeterm(s, src)
          I.write(s, L, I.load_whole(s, src) if whole else mk('slice', I.load_whole(s, src), vals[0].a[1], vals[1].a[1]), n)
        else:
          I.havoc(s, L, 'assign')
      return [(s, mk('LV', L))]
    if name == 'swap':
      return self.swap(s, L, args[0].a[0], n)
    if name in ('operator+=', 'append'):
      if len(args) == 1:
        I.write(s, L, mk('concat', ver, I.rv(s, args[0])), n)
      else:
        vals = [I.rv(s, a) for a in args]
        I.write(s, L, mk('concat', ver, mk('parts', tuple(vals))), n)
      return [(s, mk('LV', L))]
    if name.startswith('operator basic_string_view') or name.startswith('operator std'):
      return [(s, ver)]
    if name == 'substr':
      vals = [I.rv(s, a) for a in args]
      if 'defarg' in (n['a'][-1] if n['a'] else {}) and vals and vals[0] is C0:
        return [(s, ver)]
      r = S.substr(I, s, ver, vals[0] if vals else C0, vals[1] if len(vals) > 1 and 'defarg' not in n['a'][-1] else None)
      return [(s, r if r is not None else mk('substr', ver, tuple(vals)))]
    if name in ('remove_prefix', 'remove_suffix'):
      k = I.rv(s, args[0])
      I.kill_under(s, L)
      I.write(s, L, mk('cut', name == 'remove_prefix', ver, k) if not self.deep(ver) else mk('sized', next(_fresh), sub(size, k)), n)
      return [(s, VOID)]
    if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'count') and cls not in STRS:
      k = I.rv(s, args[0])
      if name == 'count':
        v = mk('mapcount', ver, k)
        I.tr[v] = ((0, 1),)
        return [(s, v)]
      if ver.k == 'list' and len(ver.a) <= 8:
        i = self.lookup(s, L, len(ver.a), k, ismap)
        if i is not None:
          return [(s, mk('it', L, C(i)))]
      s2 = s.copy()
      p = fresh('found')
      I.tr[p] = ((0, INF),)
      I.constrain(s, sub(p, size), ((-INF, -1),))
      kl = F(E(L, p), 'std::pair::first') if ismap else E(L, p)
      s.env[kl] = k
      return [(s, mk('it', L, p)), (s2, mk('it', L, size))]
    if name in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'compare', 'starts_with', 'ends_with'):
      r = self.strquery(n, name, s, ver, [I.rv(s, a) for a, x in zip(args, n['a'][-len(args):]) if 'defarg' not in x])
      if r is not None:
        return [(s, r)]
      return [(s, mk('strop', name, ver, tuple(I.rv(s, a) for a in args)))]
    if name == 'extract':
      self.newver(s, L, fresh('size'), n)
      return [(s, fresh('node'))]
    if name == 'replace':
      I.write(s, L, mk('concat', ver, mk('parts', tuple(I.rv(s, a) for a in args))), n)
      return [(s, mk('LV', L))]
    return None

  @staticmethod
  def inlist(k, L, n):
    """whether a location is not a part of a container or of one of its first elements"""
    while k.k in ('E', 'F'):
      if k.a[0] is L:
        return k.k == 'E' and isc(k.a[1]) and 0 <= k.a[1].a[0] < n
      k = k.a[0]
    return True

  def lookup(self, s, L, n, k, ismap):
    """position of a key in a container with known elements, the size if it is not contained, None if unknown"""
    for i in range(n):
      l = E(L, C(i))
      t = self.I.truth(s, eq(self.I.load(s, F(l, 'std::pair::first') if ismap else l), k))
      if t is None:
        return None
      if t:
        return i
    return n

  def strquery(self, n, name, s, v, vals):
    I = self.I
    if not vals:
      return None
    w = vals[-1]
    if w.k == 'c':
      w = mk('s', chr(w.a[0] & 0xFF))
    if name in ('starts_with', 'ends_with'):
      r = (S.starts_with if name == 'starts_with' else S.ends_with)(v, w)
      return None if r is None else C(r)
    if name == 'compare':
      t = v
      if len(vals) == 3:
        t = S.substr(I, s, v, vals[0], vals[1])
      elif len(vals) != 1:
        return None
      r = S.equal(t, w) if t is not None else None
      return None if r is None else (C0 if r else C1)
    if name in ('find', 'rfind') and (len(vals) == 1):
      r = S.contains(v, w)
      if r is False:
        return C(S.NPOS)
      if r:
        ps = S.parts(v)
        if name == 'rfind' and S.ends_with(v, w):
          return sub(S.size(I, v), I.sizeof(w))
        if len(ps) == 1:
          return C(ps[0].a[0].find(w.a[0]) if name == 'find' else ps[0].a[0].rfind(w.a[0]))
        p = fresh('found')
        I.tr[p] = ((0, S.NPOS - 1),)
        return p
    return None

  def known_set(self, n, name, s, L, ver, args):
    """set with few known elements"""
    I = self.I
    vals = [I.rv(s, a) for a in args]
    if name not in ('insert', 'emplace', 'erase', 'find', 'count', 'contains') or len(vals) != 1 or vals[0].k == 'it':
      return None
    v = vals[0]
    ts = [I.truth(s, eq(x, v)) for x in ver.a]
    if any(t is None for t in ts):
      return None
    pos = ts.index(True) if True in ts else None
    if name in ('insert', 'emplace'):
      if pos is None:
        I.write(s, L, mk('list', *(ver.a + (v,))), n)
      return [(s, mk('rec', ZERO, (('std::pair::first', mk('it', L, C(pos if pos is not None else len(ver.a)))),
        ('std::pair::second', C(pos is None)))))]
    if name == 'erase':
      if pos is not None:
        I.write(s, L, mk('list', *(ver.a[:pos] + ver.a[pos + 1:])), n)
      return [(s, C(pos is not None))]
    if name == 'find':
      return [(s, mk('it', L, C(pos if pos is not None else len(ver.a))))]
    return [(s, C(pos is not None))]

  def deep(self, v):
    d = 0
    while v.k in ('app', 'cat', 'cut', 'concat'):
      v = v.a[0] if v.k != 'cut' else v.a[1]
      d += 1
      if d > 6:
        return True
    return False

  def array_n(self, t):
    import re
    m = re.search(r'array<.*,\s*(\d+)(?:UL|ul|u|l)*>', t.get('s') or t.get('rec') or '')
    return int(m.group(1)) if m else None

  def build(self, n, c, s, args):
    """element constructed in place from args"""
    I = self.I
    # element type: from the callee's class template arguments
    el = None
    rt = (n.get('t') or {})
    rec = rt.get('rec')
    vals = [I.rv(s, a) for a in args]
    if rec and rec in I.P.records and not bare(rec).startswith('std::'):
      return self.make(rec, n, s, args)
    if len(vals) == 1:
      return [(s, vals[0])]
    if rec and bare(rec) == 'std::pair' and len(vals) == 2:
      return [(s, mk('rec', ZERO, (('std::pair::first', vals[0]), ('std::pair::second', vals[1]))))]
    return [(s, mk('built', tuple(vals), fresh('elem')))]

  def make(self, rec, n, s, args):
    """value of a program record constructed from args"""
    I = self.I
    r = I.P.records[rec]
    if len(args) == 1:
      a = args[0]
      # copy / move construction?
      at = None
      for x in n['a'][-1:]:
        at = (x.get('t') or {}).get('rec')
      if at == rec:
        return [(s, I.rv(s, a))]
    cs = [f for f in I.P.funcs.values() if f.get('ctor') and f.get('cls') == rec and not f.get('implicit') and
      len(f['params']) >= len(args)]
    cs.sort(key=lambda f: len(f['params']))
    l = mk('TMP', ('make', n['_i']), I.frame)
    I.kill_under(s, l)
    s.env[l] = UNDEF
    if cs:
      out = []
      for s2 in I.construct(cs[0], s, l, list(args), n):
        out.append((s2, I.load_whole(s2, l)))
      return out
    if not args:
      return [(s, mk('rec', ZERO, tuple((rec + '::' + f['n'], self.finit(f)) for f in r['fields'] if f.get('init'))))]
    vals = [I.rv(s, a) for a in args]
    return [(s, mk('rec', ZERO, tuple((rec + '::' + f['n'], v) for f, v in zip(r['fields'], vals))))]

  def finit(self, f):
    v = self.I.constval(f['init']) if isinstance(f.get('init'), dict) else None
    return v if v is not None else fresh('init')

  def swap(self, s, a, b, n):
    I = self.I
    va, vb = I.load_whole(s, a), I.load_whole(s, b)
    I.write(s, a, vb, n)
    I.write(s, b, va, n)
    return [(s, VOID)]

  # ------------------------------------------------------------------ optional
  def optional(self, n, c, name, s, obj, args):
    I = self.I
    if name in ('has_value', 'operator bool', '_M_is_engaged'):
      v = I.load(s, F(obj, HAS))
      I.settype(v, {'bits': 1, 'bool': True})
      return [(s, v)]
    if name in ('operator*', 'value', '_M_get'):
      return [(s, mk('LV', F(obj, VAL)))]
    if name == 'operator->':
      return [(s, mk('addr', F(obj, VAL)))]
    if name == 'reset':
      I.write(s, obj, OPT_NONE, n)
      return [(s, VOID)]
    if name == 'value_or':
      s2 = s.copy()
      out = []
      h = I.load(s, F(obj, HAS))
      I.settype(h, {'bits': 1, 'bool': True})
      if I.assume(s, h, True):
        out.append((s, I.load_whole(s, F(obj, VAL))))
      if I.assume(s2, h, False):
        out.append((s2, I.rv(s2, args[0])))
      return out
    if name == 'operator=':
      x = n['a'][-1]
      at = x.get('t') or {}
      r = at.get('rec') or ''
      if 'nullopt' in r:
        v = OPT_NONE
      elif bare(r) == 'std::optional':
        v = I.rv(s, args[0])
      else:
        v = opt_some(I.rv(s, args[0]))
      I.write(s, obj, v, n)
      return [(s, mk('LV', obj))]
    if name == 'emplace':
      out = []
      for s2, v in self.build(n, c, s, args):
        I.write(s2, obj, opt_some(v), n)
        out.append((s2, mk('LV', F(obj, VAL))))
      return out
    if name == 'swap':
      return self.swap(s, obj, args[0].a[0], n)
    return None

  # ------------------------------------------------------------ smart pointers
  def smartptr(self, n, c, name, s, obj, args):
    I = self.I
    if name in ('get', 'operator->', '_M_get'):
      return [(s, I.load(s, obj))]
    if name == 'operator*':
      return [(s, mk('LV', deref(I.load(s, obj))))]
    if name == 'operator bool':
      return [(s, neg(eq(I.load(s, obj), C0)))]
    if name == 'release':
      v = I.load(s, obj)
      I.write(s, obj, C0, n)
      return [(s, v)]
    if name == 'reset':
      vals = [I.rv(s, a) for a, x in zip(args, n['a'][-len(args):]) if not x.get('defarg')] if args else []
      v = vals[0] if vals else C0
      I.write(s, obj, C0 if v.k == 'zero' else v, n)
      return [(s, VOID)]
    if name == 'operator=':
      a = args[0]
      v = I.rv(s, a)
      if a.k == 'LV' and self.clsof(c) == 'std::unique_ptr' and a.a[0].k != 'TMP':
        I.write(s, a.a[0], C0, n)
      I.write(s, obj, C0 if v.k == 'zero' else v, n)
      return [(s, mk('LV', obj))]
    if name == 'swap':
      return self.swap(s, obj, args[0].a[0], n)
    return None

  # ----------------------------------------------------------------- iterators
  def iterator(self, n, c, name, s, obj, args):
    I = self.I
    v = I.load(s, obj)
    if name == 'operator*':
      return [(s, mk('LV', self.itloc(v)))]
    if name == 'operator->':
      return [(s, mk('addr', self.itloc(v)))]
    if name == 'operator[]':
      return [(s, mk('LV', self.itloc(self.itadd(v, I.rv(s, args[0])))))]
    if name in ('operator++', 'operator--'):
      nv = self.itadd(v, C(1 if name[-1] == '+' else -1))
      I.write(s, obj, nv, n)
      post = len(args) > 0
      return [(s, v if post else mk('LV', obj))]
    if name in ('operator+', 'operator-'):
      k = I.rv(s, args[0])
      if k.k in ('it', 'rit'):
        return [(s, I.arith(s, '-', v, k, None))]
      return [(s, self.itadd(v, k if name[-1] == '+' else scale(k, -1)))]
    if name in ('operator+=', 'operator-='):
      k = I.rv(s, args[0])
      I.write(s, obj, self.itadd(v, k if name[-2] == '+' else scale(k, -1)), n)
      return [(s, mk('LV', obj))]
    if name == 'operator=':
      I.write(s, obj, I.rv(s, args[0]), n)
      return [(s, mk('LV', obj))]
    if name == 'base':
      if v.k == 'rit':
        return [(s, mk('it', v.a[0], v.a[1]))]
      return [(s, v)]
    return None

  def itloc(self, v):
    if v.k == 'rit':
      return E(v.a[0], sub(v.a[1], C1))
    return deref(v)

  def itadd(self, v, k):
    if v.k == 'it':
      return mk('it', v.a[0], add(v.a[1], k))
    if v.k == 'rit':
      return mk('rit', v.a[0], add(v.a[1], k, -1))
    if v.k == 'addr' and v.a[0].k == 'E':
      return mk('addr', E(v.a[0].a[0], add(v.a[0].a[1], k)))
    return add(v, k)

  # ------------------------------------------------------------ free functions
  def free(self, n, c, q, name, s, args):
    I = self.I
    rv = lambda i: I.rv(s, args[i])
    if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'addressof', 'move_if_noexcept') and len(args) == 1:
      return [(s, args[0])]
    if name in ('operator==', 'operator!=') and len(args) == 2 and args[0].k == 'LV' and args[1].k == 'LV':
      a, b = (I.load_whole(s, x.a[0]) for x in args)
      if a.k == 'list' and b.k == 'list':
        t = [I.truth(s, eq(x, y)) for x, y in zip(a.a, b.a)] if len(a.a) == len(b.a) else [False]
        r = False if False in t else None if None in t else True
        if r is not None:
          return [(s, C(int(r == (name == 'operator=='))))]
    if name == 'exchange' and len(args) == 2:
      l = args[0].a[0]
      v = I.load_whole(s, l)
      nv = rv(1)
      I.write(s, l, ZERO_LIKE(nv, v), n)
      return [(s, v)]
    if name == 'swap' and len(args) == 2 and args[0].k == 'LV' and args[1].k == 'LV':
      return self.swap(s, args[0].a[0], args[1].a[0], n)
    if name in ('min', 'max') and len(args) >= 2:
      a, b = rv(0), rv(1)
      c1 = cmp('<=', a, b)
      s2 = s.copy()
      out = []
      if I.assume(s, c1, True):
        out.append((s, a if name == 'min' else b))
      if I.assume(s2, c1, False):
        out.append((s2, b if name == 'min' else a))
      return out
    if name in ('abs', 'labs', 'llabs') and len(args) == 1 and (n.get('t') or {}).get('bits'):
      return self.abs(n, s, rv(0))
    if name == 'clamp':
      v, lo, hi = rv(0), rv(1), rv(2)
      out = []
      s2 = s.copy()
      if I.assume(s, cmp('<', v, lo), True):
        out.append((s, lo))
      if I.assume(s2, cmp('<', v, lo), False):
        s3 = s2.copy()
        if I.assume(s2, cmp('<', hi, v), True):
          out.append((s2, hi))
        if I.assume(s3, cmp('<', hi, v), False):
          out.append((s3, v))
      return out
    if name in ('begin', 'cbegin', 'end', 'cend', 'rbegin', 'rend', 'size', 'data', 'empty') and len(args) == 1 and args[0].k == 'LV':
      L = args[0].a[0]
      t = n['a'][0].get('t') or {}
      nn = t.get('array') or self.array_n(t)
      size = C(nn) if nn else I.sizeterm(s, L)
      if name in ('begin', 'cbegin'):
        return [(s, mk('it', L, C0))]
      if name in ('end', 'cend'):
        return [(s, mk('it', L, size))]
      if name == 'rbegin':
        return [(s, mk('rit', L, size))]
      if name == 'rend':
        return [(s, mk('rit', L, C0))]
      if name == 'size':
        return [(s, size)]
      if name == 'data':
        return [(s, mk('addr', E(L, C0)))]
      return [(s, eq(size, C0))]
    if name == 'distance':
      return [(s, I.arith(s, '-', rv(1), rv(0), None))]
    if name in ('next', 'prev'):
      k = rv(1) if len(args) > 1 else C1
      return [(s, self.itadd(rv(0), k if name == 'next' else scale(k, -1)))]
    if name == 'make_reverse_iterator':
      v = rv(0)
      return [(s, mk('rit', v.a[0], v.a[1]) if v.k == 'it' else fresh('rit'))]
    if name == 'make_optional':
      return [(s, opt_some(rv(0)))]
    if name in ('make_unique', 'make_shared'):
      rec = None
      for x in c.get('ta') or []:
        rec = x if isinstance(x, str) else (x or {}).get('rec')
        break
      if rec is None:
        rt = (n.get('t') or {}).get('ta') or []
        rec = rt[0] if rt and isinstance(rt[0], str) else None
      p = mk('ptrto', mk('D', fresh('obj')))
      l = p.a[0]
      if rec in I.P.records:
        cs = [f for f in I.P.funcs.values() if f.get('ctor') and f.get('cls') == rec and not f.get('implicit') and len(f['params']) >= len(args)]
        if cs:
          cs.sort(key=lambda f: len(f['params']))
          s.env[l] = UNDEF
          return [(s2, p) for s2 in I.construct(cs[0], s, l, list(args), n)]
      s.env[l] = ZERO if not args else (rv(0) if len(args) == 1 else fresh('obj'))
      return [(s, p)]
    if name == 'bind':
      bargs = []
      for a, x in zip(args[1:], n['a'][1:]):
        ph = self.placeholder(x)
        bargs.append(mk('placeholder', ph) if ph else (I.load(s, a.a[0]) if a.k == 'LV' else a))
      f = args[0]
      f = I.load(s, f.a[0]) if f.k == 'LV' else f
      return [(s, mk('bind', f, tuple(bargs)))]
    if name in ('tie', 'forward_as_tuple'):
      return [(s, mk('tie', tuple(a.a[0] if a.k == 'LV' else mk('TMP', n['_i'], I.frame) for a in args)))]
    if name == 'make_pair':
      return [(s, mk('rec', ZERO, (('std::pair::first', rv(0)), ('std::pair::second', rv(1)))))]
    if name == 'make_tuple':
      return [(s, mk('rec', ZERO, tuple(('std::tuple::_%d' % i, rv(i)) for i in range(len(args)))))]
    if name in ('get', 'get_if') and args:
      idx = None
      for x in c.get('ta') or []:
        if isinstance(x, int):
          idx = x
        elif isinstance(x, str) and x.isdigit():
          idx = int(x)
        break
      a = args[0]
      if name == 'get_if':
        l = deref(I.rv(s, a))
        s2 = s.copy()
        return [(s, mk('addr', F(l, '$variant::v'))), (s2, C0)]
      if a.k == 'LV':
        l = a.a[0]
        rec = bare((n['a'][0].get('t') or {}).get('rec') or '')
        if rec == 'std::pair' and idx is not None:
          return [(s, mk('LV', F(l, ('std::pair::first', 'std::pair::second')[idx])))]
        if rec == 'std::variant':
          return [(s, mk('LV', F(l, '$variant::v')))]
        return [(s, mk('LV', F(l, 'std::tuple::_%s' % idx)))]
      return None
    if name in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'count', 'count_if',
        'remove', 'remove_if', 'stable_partition', 'partition', 'sort', 'stable_sort', 'lower_bound', 'upper_bound', 'equal_range',
        'unique', 'reverse', 'fill', 'copy', 'transform', 'accumulate', 'search', 'adjacent_find', 'max_element', 'min_element',
        'copy_if', 'rotate', 'replace', 'replace_if', 'generate', 'find_first_of', 'equal', 'binary_search'):
      return self.algorithm(n, c, name, s, args)
    if name == 'duration_cast':
      return [(s, mk('dcast', (n.get('t') or {}).get('s', ''), rv(0)) if not isc(rv(0)) or rv(0).a[0] else rv(0))]
    if name.startswith('operator') and len(args) == 2:
      op = name[8:].strip()
      if op in ('==', '!=', '<', '>', '<=', '>='):
        return self.compare(n, op, s, args)
      if op in ('+', '-', '*', '/', '%'):
        a, b = rv(0), rv(1)
        rec = bare((n.get('t') or {}).get('rec') or '')
        if rec == 'std::basic_string':
          return [(s, mk('concat', a, b))]
        if 'path' in rec:
          return [(s, mk('concat', a, b))]
        if 'chrono' in rec or a.k in ('it', 'rit') or b.k in ('it', 'rit'):
          if a.k == 'rit' and b.k == 'rit':
            return [(s, sub(b.a[1], a.a[1]) if a.a[0] is b.a[0] else fresh('d'))]
          return [(s, I.arith(s, op, a, b, None))]
      if op == '<<' or op == '>>':
        a = args[0]
        if a.k == 'LV':
          if op == '<<':
            I.write(s, a.a[0], mk('concat', I.load(s, a.a[0]), rv(1)) if not self.deep(I.load(s, a.a[0])) else mk('concat', fresh('stream'), rv(1)), n)
          elif args[1].k == 'LV':
            I.havoc(s, args[1].a[0], 'stream')
        return [(s, args[0])]
    if name == 'to_string':
      return [(s, mk('tostr', rv(0)))]
    if name in ('getline',) and len(args) >= 2:
      I.havoc(s, args[1].a[0], 'getline')
      return [(s, args[0])]
    if name in ('str',):
      return None
    if name == 'absolute' or name == 'canonical':
      return [(s, mk('path', rv(0)))]
    return None

  def placeholder(self, x):
    while x['k'] in ('Cast',):
      x = x['a']
    if x['k'] == 'Ctor' and x['a']:
      return self.placeholder(x['a'][0])
    q = x.get('q') or ''
    if x['k'] == 'Ref' and 'placeholders::_' in q:
      return int(q.rsplit('_', 1)[1])
    return None

  def compare(self, n, op, s, args):
    I = self.I
    ts = [bare((x.get('t') or {}).get('rec') or '') for x in n['a']]
    if 'std::optional' in ts or 'std::nullopt_t' in ts:
      if 'std::nullopt_t' in ts:
        o = args[0] if ts[0] == 'std::optional' else args[1]
        h = I.load(s, F(o.a[0], HAS)) if o.k == 'LV' else I.fld(o, HAS)
        return [(s, neg(h) if op == '==' else h)]
      if ts[0] == 'std::optional' and ts[1] == 'std::optional':
        a, b = I.rv(s, args[0]), I.rv(s, args[1])
        ha, hb, va, vb = I.fld(a, HAS), I.fld(b, HAS), I.fld(a, VAL), I.fld(b, VAL)
        e = mk('or', mk('and', neg(ha), neg(hb)), mk('and', mk('and', ha, hb), eq(va, vb)))
        return [(s, e if op == '==' else neg(e))] if op in ('==', '!=') else None
      i = 0 if ts[0] == 'std::optional' else 1
      o = I.rv(s, args[i])
      v = I.rv(s, args[1 - i])
      e = mk('and', I.fld(o, HAS), eq(I.fld(o, VAL), v))
      return [(s, e if op == '==' else neg(e))] if op in ('==', '!=') else None
    a, b = I.rv(s, args[0]), I.rv(s, args[1])
    if a.k == 'rit' and b.k == 'rit' and a.a[0] is b.a[0]:
      return [(s, cmp(op, b.a[1], a.a[1]))]
    if op in ('==', '!='):
      if any(x in STRS for x in ts) or 's' in (a.k, b.k):
        r = S.equal(a, b)
        if r is not None:
          return [(s, C(r == (op == '==')))]
      if a.k in ('rec',) or b.k in ('rec',):
        return [(s, eq(a, b) if op == '==' else neg(eq(a, b)))]
      e = I.compare(op, a, b)
      # strings/lists compared to the empty literal
      for x, y in ((a, b), (b, a)):
        if y.k == 's' and y.a[0] == '' and x.k not in ('s',):
          e = eq(I.sizeof(x), C0)
          e = e if op == '==' else neg(e)
      return [(s, e)]
    if a.k in ('s',) or b.k == 's' or 'std::basic_string' in ts:
      return [(s, mk('strlt', op, a, b))]
    return [(s, I.compare(op, a, b))]

  # ---------------------------------------------------------------- algorithms
  def algorithm(self, n, c, name, s, args):
    I = self.I
    b, e = I.rv(s, args[0]), I.rv(s, args[1])
    b, e = self.norm(b), self.norm(e)
    if not (b.k in ('it', 'rit') and e.k == b.k and b.a[0] is e.a[0]):
      for a in args:
        if a.k == 'lam':
          for d, l in a.a[2]:
            I.havoc(s, l, 'captured')
          for i in a.a[1]:
            if i in I.P.funcs:
              I.havoc_fields(s, I.P.mods(I.P.funcs[i]))
      v = fresh(name)
      I.settype(v, n.get('t'))
      return [(s, v)]
    L = b.a[0]
    rev = b.k == 'rit'
    lo, hi = (b.a[1], e.a[1]) if not rev else (e.a[1], b.a[1])
    mkit = (lambda p: mk('rit', L, add(p, C1))) if rev else (lambda p: mk('it', L, p))
    ver = I.load(s, L)
    pred = args[2] if len(args) > 2 else None
    if pred is not None and pred.k == 'LV':
      pv = I.load(s, pred.a[0])
      if pv.k in ('lam', 'fn', 'bind'):
        pred = pv

    if name in ('sort', 'stable_sort', 'reverse', 'fill', 'rotate', 'replace', 'replace_if', 'generate'):
      self.newver(s, L, I.sizeof(ver), n)
      return [(s, fresh(name))]
    if name in ('lower_bound', 'upper_bound', 'max_element', 'min_element', 'adjacent_find', 'search', 'find_first_of'):
      p = fresh('pos')
      I.tr[p] = ((0, INF),)
      I.constrain(s, sub(p, hi), ((-INF, 0),))
      I.constrain(s, sub(lo, p), ((-INF, 0),))
      return [(s, mkit(p))]
    if name == 'equal' and len(args) in (3, 4):
      d = self.norm(I.rv(s, args[2]))
      if d.k == b.k:
        v1, v2 = I.load(s, L), I.load(s, d.a[0])
        full = lo is C0 and hi is I.sizeof(v1)
        start = d.a[1] is C0 if not rev else d.a[1] is I.sizeof(v2)
        if full and start:
          r = S.ends_with(v2, v1) if rev else S.starts_with(v2, v1)
          if r is not None and len(args) == 3:
            return [(s, C(r))]
    if name in ('equal', 'binary_search', 'accumulate'):
      v = fresh(name)
      I.settype(v, n.get('t'))
      return [(s, v)]
    if name in ('copy', 'transform', 'copy_if'):
      d = self.norm(I.rv(s, args[2]))
      if d.k == 'it':
        self.newver(s, d.a[0], I.sizeterm(s, d.a[0]), n)
      return [(s, fresh(name))]

    def test(st, el):
      """-> [(state, bool term)] predicate on element"""
      if name in ('find', 'count', 'remove', 'unique'):
        if pred is None:
          return [(st, fresh('b'))]
        v = I.rv(st, pred)
        return [(st, eq(I.load_whole(st, el), v))]
      return I.call_value(pred, st, [mk('LV', el)], n)

    out = []
    stops = {'find': True, 'find_if': True, 'find_if_not': False, 'any_of': True, 'none_of': True, 'all_of': False}
    # simple literal lists: unroll
    if name in stops and ver.k == 'list' and isc(lo) and isc(hi) and len(ver.a) <= 8:
      cur = [s]
      for i in (range(hi.a[0] - 1, lo.a[0] - 1, -1) if rev else range(lo.a[0], hi.a[0])):
        nxt = []
        for st in cur:
          for s2, v in test(st, E(L, C(i))):
            s3 = s2.copy()
            if I.assume(s2, v, stops[name]):
              out.append((s2, mkit(C(i)) if name.startswith('find') else C(name == 'any_of')))
            if I.assume(s3, v, not stops[name]):
              nxt.append(s3)
        cur = I.reduce(nxt, n)
      out += [(st, e if name.startswith('find') else C(name != 'any_of')) for st in cur]
      return out
    if name in ('remove', 'remove_if') and ver.k == 'list' and isc(lo) and isc(hi) and lo.a[0] == 0 and hi.a[0] == len(ver.a) and \
        len(ver.a) <= 8 and not rev:
      cur = [(s, ())]
      for i in range(len(ver.a)):
        nxt = []
        for st, keep in cur:
          for s2, v in test(st, E(L, C(i))):
            s3 = s2.copy()
            if I.assume(s2, v, True):
              nxt.append((s2, keep))
            if I.assume(s3, v, False):
              nxt.append((s3, keep + (I.load_whole(s3, E(L, C(i))),)))
        cur = nxt
      if len(cur) <= getattr(I.rule, 'listpaths', 4):
        for st, keep in cur:
          I.kill_under(st, L)
          I.write(st, L, mk('list', *(keep + tuple(fresh('moved') for _ in range(len(ver.a) - len(keep))))), n)
          out.append((st, mkit(C(len(keep)))))
        return out
      s = I.reduce([x for x, _ in cur], n)[0]
    if name in ('partition', 'stable_partition') and ver.k == 'list' and isc(lo) and isc(hi) and len(ver.a) <= 8 and not rev:
      cur = [(s, (), ())]
      for i in range(lo.a[0], hi.a[0]):
        nxt = []
        for st, a, b in cur:
          for s2, v in test(st, E(L, C(i))):
            s3 = s2.copy()
            if I.assume(s2, v, True):
              nxt.append((s2, a + (I.load_whole(s2, E(L, C(i))),), b))
            if I.assume(s3, v, False):
              nxt.append((s3, a, b + (I.load_whole(s3, E(L, C(i))),)))
        cur = nxt
      for st, a, b in cur:
        whole = I.load_whole(st, L).a
        I.kill_under(st, L)
        I.write(st, L, mk('list', *(whole[:lo.a[0]] + a + b + whole[hi.a[0]:])), n)
        out.append((st, mkit(C(lo.a[0] + len(a)))))
      return out
    if name == 'for_each' and ver.k == 'list' and isc(lo) and isc(hi) and len(ver.a) <= 8:
      cur = [s]
      for i in (range(hi.a[0] - 1, lo.a[0] - 1, -1) if rev else range(lo.a[0], hi.a[0])):
        cur = I.reduce([s2 for st in cur for s2, _ in test(st, E(L, C(i)))], n)
      return [(st, fresh('f')) for st in cur]
    idxl = V(('alg', n['_i']), I.frame)
    s.env[idxl] = lo if not rev else hi
    tag = ('alg', n['_i'], I.frame, L)
    heads = {}
    pending = I._loop_merge(heads, [s], tag, 0)
    exits = []
    rnd = 0
    while pending:
      rnd += 1
      if rnd > 25:
        raise AnalysisError('algorithm does not stabilise: ' + I.where(n))
      nxt = []
      for st in pending:
        idx = I.load(st, idxl)
        pos = idx if not rev else sub(idx, C1)
        cnd = cmp('<', idx, hi) if not rev else cmp('>', idx, lo)
        s2 = st.copy()
        if I.assume(s2, cnd, False):
          exits.append(s2)
        if I.assume(st, cnd, True):
          if not rev:
            I.constrain(st, sub(lo, idx), ((-INF, 0),))
          for s3, v in test(st, E(L, pos)):
            if name in stops:
              s4 = s3.copy()
              if I.assume(s3, v, stops[name]):
                s3.env.pop(idxl, None)
                out.append((s3, mkit(pos) if name.startswith('find') else C(name == 'any_of')))
              if I.assume(s4, v, not stops[name]):
                s4.env[idxl] = add(idx, C(-1 if rev else 1))
                nxt.append(s4)
            else:
              s3.env[idxl] = add(idx, C(-1 if rev else 1))
              nxt.append(s3)
      pending = I._loop_merge(heads, I.reduce(nxt, n), tag, rnd)
    exits = I.reduce(exits, n)
    for st in exits:
      st.env.pop(idxl, None)
      if name in stops:
        out.append((st, e if name.startswith('find') else C(name != 'any_of')))
      elif name == 'for_each':
        out.append((st, fresh('f')))
      elif name in ('count', 'count_if'):
        v = fresh('count')
        I.tr[v] = ((0, INF),)
        I.constrain(st, sub(v, sub(hi, lo)), ((-INF, 0),))
        out.append((st, v))
      else:
        self.newver(st, L, I.sizeof(ver), n)
        p = fresh('pos')
        I.tr[p] = ((0, INF),)
        I.constrain(st, sub(p, hi), ((-INF, 0),))
        I.constrain(st, sub(lo, p), ((-INF, 0),))
        out.append((st, mkit(p)))
    return I.reduce_ret(out, n)

  def norm(self, v):
    if v.k == 'addr' and v.a[0].k == 'E':
      return mk('it', v.a[0].a[0], v.a[0].a[1])
    if v.k == 'addr':
      return mk('it', v.a[0], C0)
    return v

  # ------------------------------------------------------------------ C library
  def cfun(self, n, c, ev, s, obj, args):
    I = self.I
    name = c['n']
    if c.get('cls'):
      return None
    if name in ('operator==', 'operator!=') and len(args) == 2 and c['q'].startswith('operator'):
      return None
    if name == 'memset' and args and args[0].k == 'addr':
      v = I.rv(s, args[1])
      l = whole(args[0].a[0])
      if v is C0:
        I.kill_under(s, l)
        I.write(s, l, ZERO, n)
        return [(s, args[0])]
    if name in ('abs', 'labs', 'llabs') and len(args) == 1:
      return self.abs(n, s, I.rv(s, args[0]))
    if name in ('strlen',):
      return [(s, I.sizeof(I.rv(s, args[0])))]
    if name in ('strcmp', 'strncmp', 'memcmp', 'strstr', 'strchr', 'strcasecmp'):
      return [(s, mk('cfn', name, tuple(I.rv(s, a) for a in args)))]
    if name in ('strncpy', 'strcpy') and args[0].k == 'addr':
      l = args[0].a[0]
      if l.k == 'E' and l.a[1] is C0:
        l = l.a[0]
      v = I.rv(s, args[1])
      if v.k == 'addr':
        v = I.load(s, v.a[0] if not (v.a[0].k == 'E' and v.a[0].a[1] is C0) else v.a[0].a[0])
      if name == 'strncpy':
        iv = I.interval(s, sub(I.sizeof(v), I.rv(s, args[2])))
        if not iv or iv[-1][1] > 0:
          v = mk('truncated', v, I.rv(s, args[2]))
      I.kill_under(s, l)
      I.write(s, l, v, n)
      return [(s, args[0])]
    if name == 'strstr' and len(args) == 2:
      r = S.contains(I.rv(s, args[0]), I.rv(s, args[1]))
      if r is not None:
        return [(s, mk('ptrto', mk('D', fresh('strstr'))) if r else C0)]
    if name in ('strcmp', 'strncmp') and len(args) >= 2:
      r = S.equal(I.rv(s, args[0]), I.rv(s, args[1])) if name == 'strcmp' else None
      if r is not None:
        return [(s, C0 if r else C1)]
    if name == 'memcpy' and args[0].k == 'addr':
      I.havoc(s, whole(args[0].a[0]), 'memcpy')
      return [(s, args[0])]
    return None


def ZERO_LIKE(nv, old):
  return nv

"""String values: concatenations of constants and unknown parts."""
from .engine import *

NPOS = (1 << 64) - 1


def parts(v):
  """flatten into a list of parts; neighbouring constants are merged"""
  out = []

  def go(x):
    if x.k == 'concat':
      go(x.a[0])
      go(x.a[1])
    elif x.k == 'chr' and isc(x.a[0]):
      go(mk('s', chr(x.a[0].a[0] & 0xFF)))
    elif x.k == 'zero':
      pass
    elif x.k == 's':
      if x.a[0]:
        if out and out[-1].k == 's':
          out[-1] = mk('s', out[-1].a[0] + x.a[0])
        else:
          out.append(x)
    else:
      out.append(x)
  go(v)
  return out


def join(ps):
  if not ps:
    return mk('s', '')
  v = ps[0]
  for p in ps[1:]:
    v = mk('concat', v, p)
  return v


def size(I, v):
  r = C0
  for p in parts(v):
    if p.k == 'chr':
      r = add(r, C1)
    elif p.k == 'parts':
      return mk('size', v)
    else:
      r = add(r, I.sizeof(p))
  return r


def tail(I, st, v, pos):
  """v.substr(pos), or None when undecided"""
  if pos is C0:
    return v
  ps = parts(v)
  at = C0
  for i in range(len(ps) + 1):
    d = sub(pos, at)
    if d is C0:
      return join(ps[i:])
    if i < len(ps):
      if ps[i].k == 's' and isc(d) and 0 < d.a[0] < len(ps[i].a[0]):
        return join([mk('s', ps[i].a[0][d.a[0]:])] + ps[i + 1:])
      at = add(at, C1 if ps[i].k == 'chr' else I.sizeof(ps[i]))
  return None


def head(I, st, v, n):
  """v.substr(0, n), or None"""
  if n is C0:
    return mk('s', '')
  sz = size(I, v)
  iv = I.interval(st, sub(n, sz))
  if iv and iv[0][0] >= 0:
    return v
  ps = parts(v)
  at = C0
  for i in range(len(ps)):
    d = sub(n, at)
    if d is C0:
      return join(ps[:i])
    if ps[i].k == 's' and isc(d) and 0 < d.a[0] < len(ps[i].a[0]):
      return join(ps[:i] + [mk('s', ps[i].a[0][:d.a[0]])])
    at = add(at, C1 if ps[i].k == 'chr' else I.sizeof(ps[i]))
  return None


def substr(I, st, v, pos, n=None):
  t = tail(I, st, v, pos)
  if t is None:
    return None
  if n is None or isc(n) and n.a[0] >= NPOS:
    return t
  return head(I, st, t, n)


def equal(a, b):
  """True / False / None"""
  pa, pb = parts(a), parts(b)
  if pa == pb:
    return True
  if all(p.k == 's' for p in pa) and all(p.k == 's' for p in pb):
    return False
  for x, y in ((pa, pb), (pb, pa)):
    if not x or not y:
      if any(p.k == 's' for p in x or y):
        return False
  if pa and pb:
    if pa[-1].k == 's' and pb[-1].k == 's':
      u, w = pa[-1].a[0], pb[-1].a[0]
      if not (u.endswith(w) or w.endswith(u)):
        return False
      if len(pb) == 1 and len(u) > len(w) or len(pa) == 1 and len(w) > len(u):
        return False
    if pa[0].k == 's' and pb[0].k == 's':
      u, w = pa[0].a[0], pb[0].a[0]
      if not (u.startswith(w) or w.startswith(u)):
        return False
      if len(pb) == 1 and len(u) > len(w) or len(pa) == 1 and len(w) > len(u):
        return False
  return None


def ends_with(v, w):
  pv, pw = parts(v), parts(w)
  if not pw:
    return True
  if len(pw) == 1 and pw[0].k == 's' and pv and pv[-1].k == 's':
    u, x = pv[-1].a[0], pw[0].a[0]
    if u.endswith(x):
      return True
    if len(u) >= len(x) or not x.endswith(u) or len(pv) == 1:
      return False
  return None


def starts_with(v, w):
  pv, pw = parts(v), parts(w)
  if not pw:
    return True
  if len(pw) == 1 and pw[0].k == 's' and pv and pv[0].k == 's':
    u, x = pv[0].a[0], pw[0].a[0]
    if u.startswith(x):
      return True
    if len(u) >= len(x) or not x.startswith(u) or len(pv) == 1:
      return False
  return None


def contains(v, w):
  pv, pw = parts(v), parts(w)
  if len(pw) == 1 and pw[0].k == 's':
    if any(p.k == 's' and pw[0].a[0] in p.a[0] for p in pv):
      return True
    if all(p.k == 's' for p in pv):
      return False
  return None

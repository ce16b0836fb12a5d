"""C02: a connection is usable only after both ends agreed on the version."""
from .common import *
from .. import facts as _facts

TECHNIQUE = 'abstract interpretation of the handshake over the clang AST (descriptor typestate, must-precede facts)'
NOTE = 'All paths of accepting and connecting with every outcome of each system call, joined where monitor states agree.'

O_NONBLOCK, F_SETFL, F_GETFL = 0o4000, 4, 3
OWN = mk('PARAM', 'own', 'version', 0)


class M:
  """monitor state: open descriptors, facts established, what was last received"""
  @staticmethod
  def new():
    return (frozenset(), frozenset(), None, None)


def hooks(ctx, role, P):
  def on_call(I, st, ev):
    opened, flags, loc, sent = st.mon
    name, nargs = ev.name, len(ev.args)
    if ev.cls is None or not ev.cls:
      if name in ('accept', 'accept4', 'socket') and nargs >= 3:
        fd = mk('PARAM', 'fd', name, ev.node['_i'])
        I.tr[fd] = ((0, 1 << 20),)
        bad = st.copy()
        nb = flags
        if name == 'accept4' and isc(I.rv(st, ev.args[3])) and I.rv(st, ev.args[3]).a[0] & O_NONBLOCK:
          nb = nb | {'nonblocking'}
        st.mon = (opened | {fd}, nb, None, sent)
        return [(st, fd), (bad, C(-1))]
      if name == 'close' and nargs == 1:
        fd = I.rv(st, ev.args[0])
        if fd not in opened and fd.k != 'ini':
          ctx.ob('closed', 'close in ' + P.funcs[ev.node['_f']]['q'], False, at(I, ev.node), 'closes a descriptor which is not open')
        st.mon = (opened - {fd}, flags, loc, sent)
        return [(st, C0)]
      if name == 'fcntl' and nargs >= 2:
        cmd = I.rv(st, ev.args[1])
        if cmd is C(F_GETFL):
          return [(st, fresh('flags'))]
        if cmd is C(F_SETFL):
          if nonblock(I.rv(st, ev.args[2])) and I.rv(st, ev.args[0]) in opened:
            st.mon = (opened, flags | {'nonblocking'}, loc, sent)
          return [(st, C0)]
        return [(st, C0)]
      if name == 'recv' and nargs >= 3:
        p = I.rv(st, ev.args[1])
        l = deref(p)
        bad = st.copy()
        v = fresh('received')
        if l.k != 'D':
          I.kill_under(st, l)
          st.env[l] = v
        # a variable received into may belong to a helper, its value remains known
        st.mon = (opened, flags | {'received'}, l if l.k == 'D' else v, sent)
        r = fresh('r')
        I.tr[r] = ((-1, 0),)
        return [(st, I.rv(st, ev.args[2])), (bad, r)]
      if name in ('send', 'write') and nargs >= 3:
        v = I.load(st, deref(I.rv(st, ev.args[1])))
        if role == 'accept':
          ok = loc is not None and I.truth(st, eq(value(I, st, loc), OWN)) is True
          ctx.ob('accept', 'confirmation only after comparing', ok, at(I, ev.node),
            'the peer is told it was accepted although its version was not compared equal')
        bad = st.copy()
        st.mon = (opened, flags | {'sent'}, loc, v)
        r = fresh('r')
        I.tr[r] = ((-1, 0),)
        return [(st, I.rv(st, ev.args[2])), (bad, r)]
      if name in ('select', 'poll', 'bind', 'listen', 'connect') and ev.targets == []:
        r = fresh(name)
        I.tr[r] = ((-1, 1),)
        return [(st, r)]
    if ev.name == 'operator()' and ev.cls and bare(ev.cls).startswith('std::hash'):
      return [(st, OWN)]
  return on_call


def value(I, st, received):
  return I.load(st, received) if received.k == 'D' else received


def nonblock(v):
  return mentions(v, lambda x: x.k == 'c' and isinstance(x.a[0], int) and x.a[0] > 0 and x.a[0] & O_NONBLOCK != 0 and x.a[0] < (1 << 20))


def check(ctx):
  ctx.rule('accept', 'on every path on which accepting yields a usable connection: the received version was compared equal to the own one, the '
    'peer was informed, and the socket is non-blocking; a received different version marks the mismatch')
  ctx.rule('connect', 'on every path on which connecting yields a usable connection: the own version was sent, a positive answer was received and '
    'the socket is non-blocking')
  ctx.rule('closed', 'every path that yields no connection has closed the sockets it opened')
  ctx.rule('origin', 'sockets are turned into connections only by the handshake functions')
  ctx.rule('reported', 'the daemon gives up when the version mismatches')
  for prog in ('keymapper', 'keymapperd', 'keymapperctl'):
    P = load(prog)
    one(ctx, P, prog)
  reported(ctx, load('keymapperd'))


def valid(I, st, v):
  """the returned connection's descriptor, as truth of being valid"""
  fd = I.fld(v, 'Connection::m_socket_fd')
  fq = [q for q in conn_fields(I.P)]
  fd = I.fld(v, fq[0])
  return fd


def conn_fields(P):
  r = P.records.get('Connection')
  out = ['Connection::' + f['n'] for f in r['fields'] if (f['t'] or {}).get('bits') == 32 and (f['t'] or {}).get('signed')]
  if len(out) != 1:
    raise AnalysisError('descriptor field of Connection not identified')
  return out


def one(ctx, P, prog):
  done = 0
  for role in ('accept', 'connect'):
    fns = P.find('Host::' + role, required=False)
    if not fns:
      continue
    fn = P.find1('Host::' + role)
    if not P.callers().get(fn['id']):
      continue
    done += 1
    obj = mk('OBJ', 'Host')
    vm = method(P, 'Host::version_mismatch')

    def on_leave(I, st, f, v, node, fn=fn, role=role):
      if f['id'] != fn['id']:
        return
      opened, flags, loc, sent = st.mon
      if v.k == 'LV':
        v = I.load_whole(st, v.a[0])
      fd = valid(I, st, v)
      t = I.truth(st, eq(fd, C(-1)))
      if fd in opened:
        t = False
      if t is None:
        raise AnalysisError('cannot tell whether Host::%s returns a connection (%s)' % (role, fd))
      key = '%s of %s' % (role, prog)
      val = value(I, st, loc) if loc is not None else None
      if t is False:
        if role == 'accept':
          ok = val is not None and I.truth(st, eq(val, OWN)) is True
          ctx.ob(role, key + ': version equal', ok, P.where(fn), 'yields a connection although the version was not compared equal')
          ctx.ob(role, key + ': informed', 'sent' in flags, P.where(fn), 'yields a connection without informing the peer')
        else:
          ok = val is not None and I.truth(st, val) is True
          ctx.ob(role, key + ': accepted', ok, P.where(fn), 'yields a connection without a positive answer of the peer')
          ctx.ob(role, key + ': version sent', sent is OWN, P.where(fn), 'yields a connection without having sent the own version')
        ctx.ob(role, key + ': non-blocking', 'nonblocking' in flags, P.where(fn), 'yields a connection which is not switched to non-blocking')
        left = opened - {fd}
        ctx.ob('closed', key + ': success', not left, P.where(fn), 'leaves a second socket open')
        mm = I.invoke(vm, st.copy(), obj, [], {'_i': ('vm', role), 'l': 0, '_f': vm['id'], 'k': 'entry'})
        ctx.ob('accept', key + ': no mismatch reported', all(I.truth(x, m) is not True for x, m in mm), P.where(fn),
          'reports a version mismatch for an accepted peer')
      else:
        ctx.ob('closed', key + ': failure', not opened, P.where(fn), 'a path yields no connection but leaves the socket open')
        if role == 'accept' and val is not None and I.truth(st, eq(val, OWN)) is False:
          mm = I.invoke(vm, st.copy(), obj, [], {'_i': ('vm', role), 'l': 0, '_f': vm['id'], 'k': 'entry'})
          seen['mismatch'] += 1
          ctx.ob('accept', key + ': mismatch reported', all(I.truth(x, m) is True for x, m in mm), P.where(fn),
            'a different version of the peer is not reported as mismatch')
    seen = {'mismatch': 0}
    I = Interp(P, Spec(interest=lambda n: node_calls(n, 'accept', 'accept4', 'socket', 'close', 'fcntl', 'recv', 'send') or
      node_calls(n, 'operator()') and 'std::hash' in (callee(n).get('cls') or '') or
      n['k'] == 'Mem' and not callee(n) and n.get('q') in conn_fields(P), on_call=hooks(ctx, role, P), on_leave=on_leave, cap=40, retcap=6))
    I.tr[OWN] = ((0, (1 << 64) - 1),)

    def setup(I, s, args):
      s.env[F(obj, 'Host::m_version_mismatch')] = C0
    r = I.run(fn, M.new(), obj=obj, setup=setup)
    ctx.used(I)
    ctx.need('returns of Host::%s in %s' % (role, prog), len(r), 2)
    if role == 'accept':
      ctx.need('mismatch paths of Host::accept in ' + prog, seen['mismatch'], 1)
  ctx.need('handshake functions of ' + prog, done, 1)
  # who turns a socket into a connection
  sites = 0
  shake = {f['id'] for q in ('Host::accept', 'Host::connect') for f in P.find(q, required=False)}
  callers = P.callers()
  for f in P.funcs.values():
    for n in P.nodes(f):
      if n['k'] == 'Ctor' and bare(n['q']).startswith('Connection') and callee(n).get('cls') == 'Connection' and len(n['a']) == 1 and \
          not n.get('cm') and (n['a'][0].get('t') or {}).get('bits'):
        sites += 1
        ctx.ob('origin', '%s in %s' % (f['q'], prog), only_below(P, callers, f, shake), P.where(f, n),
          'turns a socket into a connection outside of the handshake')
  ctx.need('sites turning a socket into a connection in ' + prog, sites, 1)


def only_below(P, callers, f, shake, seen=None):
  """every call chain to f passes through one of the functions"""
  if f['id'] in shake:
    return True
  seen = seen or set()
  if f['id'] in seen:
    return True
  seen.add(f['id'])
  cs = callers.get(f['id'], [])
  return bool(cs) and all(only_below(P, callers, g, shake, seen) for g, _ in cs)


def reported(ctx, P):
  """the daemon's session loop ends when a mismatch is reported"""
  main = P.find1('main')
  seen = {'q': 0}

  def on_call(I, st, ev):
    if ev.name == 'version_mismatch' and ev.cls != 'Host' or ev.name == 'version_mismatch':
      seen['q'] += 1
      return [(st, C(1 if st.mon == 'mismatch' else 0))]
    if ev.name == 'accept_client_connection':
      ctx.ob('reported', 'waiting for another client', st.mon != 'mismatch', at(I, ev.node), 'waits for the next client after a version mismatch')
      if st.mon == 'mismatch':
        return []
      s2 = st.copy()
      s2.mon = 'mismatch'
      v = fresh('socket')
      return [(st, v), (s2, OPTN)]
    if ev.cls and is_a(P, ev.cls, 'ServerState') and ev.targets:
      v = fresh(ev.name)
      I.settype(v, ev.c.get('ret'))
      return [(st, v)]
  from ..stdmodel import OPT_NONE as OPTN
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'version_mismatch', 'accept_client_connection'), on_call=on_call))
  r = I.run(main, 'ok')
  ctx.used(I)
  ctx.need('queries of the version mismatch', seen['q'], 1)
  mm = [(s, v) for s, v in r if s.mon == 'mismatch']
  ctx.ob('reported', 'exit code', bool(mm) and all(I.truth(s, v) is True for s, v in mm), P.where(main),
    'the daemon does not end with an error after a version mismatch')

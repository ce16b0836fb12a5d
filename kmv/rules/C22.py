"""C22: signal handlers only perform async-signal-safe operations."""
from .common import *
from .C11 import sys_nodes

TECHNIQUE = 'effect analysis of everything reachable from registered signal handlers over the clang AST, and abstract interpretation of the child handler'
NOTE = ('Handlers are found at the registering calls; functions of the C library are classified by the list of POSIX. Only effects of the handler itself are judged: a plain '
  'scalar may be read, only lock-free atomics, volatile sig_atomic_t objects, locals and errno may be written.')

SAFE = set('''_Exit _exit abort accept access aio_error aio_return aio_suspend alarm bind chdir chmod chown clock_gettime close connect creat dup dup2 dup3 execl execle execv execve
faccessat fchdir fchmod fchown fcntl fdatasync fork fstat fsync ftruncate getegid geteuid getgid getgroups getpeername getpgrp getpid getppid getsockname getsockopt getuid kill link
listen lseek lstat mkdir mkfifo open openat pause pipe pipe2 poll ppoll pread pthread_kill pthread_self pthread_sigmask pwrite raise read readlink recv recvfrom recvmsg rename rmdir
select pselect sem_post send sendmsg sendto setgid setpgid setsid setsockopt setuid shutdown sigaction sigaddset sigdelset sigemptyset sigfillset sigismember signal sigpending
sigprocmask sigqueue sigset sigsuspend sleep sockatmark socket socketpair stat symlink sysconf tcdrain tcflow tcflush tcgetattr tcgetpgrp tcsendbreak tcsetattr tcsetpgrp time
timer_getoverrun timer_gettime timer_settime times umask uname unlink utime wait waitid waitpid write memcpy memset memmove memcmp memchr strlen strnlen strcpy strncpy strcmp strncmp
strcat strchr strrchr ffs htonl htons ntohl ntohs eventfd_write __errno_location __builtin_expect'''.split())
REGISTER = ('signal', 'bsd_signal', 'sysv_signal', '__sysv_signal', 'sigset')
SIGCHLD = 17
WNOHANG = 1
ATOMIC = ('std::atomic', 'std::atomic_flag', 'std::__atomic_base', 'std::atomic_base')
PLAIN = ('std::array', 'std::pair', 'std::optional', 'std::chrono', 'std::initializer_list', 'std::basic_string_view', 'std::tuple')


def check(ctx):
  ctx.rule('safe', 'code reachable from a signal handler only calls async-signal-safe functions and does not allocate, throw or take locks')
  ctx.rule('state', 'code reachable from a signal handler only modifies lock-free atomics, volatile sig_atomic_t objects, locals and errno')
  ctx.rule('children', 'the handler of finished children reaps all of them and does not block')
  n = 0
  kinds = set()
  for name in ('keymapper', 'keymapperd', 'keymapperctl'):
    P = load(name)
    hs = handlers(P)
    for f, sig, where in hs:
      n += 1
      examine(ctx, P, f, where)
      if sig == SIGCHLD:
        kinds.add('child')
        children_of(ctx, P, f)
    if name == 'keymapper':
      reaped(ctx, P, hs)
    kinds.add(name) if hs else None
  ctx.need('examined signal handlers', n, 3)
  if 'keymapperd' not in kinds:
    raise AnalysisError('no signal handler of the daemon found')


def strip(e):
  while e is not None and (e['k'] in ('Cast', 'Paren') or e['k'] == 'Un' and e['op'] in ('&', '*', '+')):
    e = e['a']
  return e


def resolve(P, f, e, depth=0):
  """functions a handler expression may denote; [] for a previous, default or ignoring handler"""
  e = strip(e)
  if e is None or e['k'] in ('Int', 'Null') or 'cv' in e:
    return []
  if e['k'] == 'Ref' and e.get('dk') == 'func':
    return P.targets(e)
  if e['k'] == 'Lambda':
    return [P.funcs[i] for i in (e.get('insts') or [e['id']]) if i in P.funcs]
  if e['k'] == 'Call' and (callee(e) or {}).get('n') in REGISTER:
    return []
  if e['k'] == 'Call' and e.get('o') is not None and ('operator' in callee(e)['n']):
    return resolve(P, f, e['o'], depth)
  if e['k'] == 'Call' and not e.get('a'):
    return resolve(P, f, e.get('o'), depth) if e.get('o') is not None else []
  if e['k'] == 'Cond':
    cs = list(children(e))[1:]
    return [x for c in cs for x in resolve(P, f, c, depth)]
  if e['k'] in ('Ref', 'Mem') and depth < 3:
    out, found = [], 0
    for g in P.funcs.values():
      for n in P.nodes(g):
        if n['k'] == 'Decl' and e['k'] == 'Ref' and g is f:
          for d in n['d']:
            if d['n'] == e['n'] and d.get('init') is not None:
              found += 1
              out += resolve(P, g, d['init'], depth + 1)
        if n['k'] == 'Bin' and n['op'] == '=':
          l = strip(n['a'])
          if l is not None and l['k'] == e['k'] and (l.get('q') or l.get('n')) == (e.get('q') or e.get('n')) and (g is f or e.get('dk') != 'var'):
            found += 1
            out += resolve(P, g, n['b'], depth + 1)
    if found:
      return out
    for g in P.globals.values():
      if g.get('q') == e.get('q') and g.get('init') is not None:
        return resolve(P, f, g['init'], depth + 1)
  raise AnalysisError('signal handler not understood: %s line %s' % (P.where(f), e.get('l')))


def const(n):
  n = strip(n)
  if n is None:
    return None
  return n.get('cv', n.get('v') if n['k'] in ('Int', 'Enum') else None)


def handlers(P):
  out = []
  for f in P.funcs.values():
    for n in sys_nodes(P, f, REGISTER):
      if len(n['a']) == 2:
        for h in resolve(P, f, n['a'][1]):
          out.append((h, const(n['a'][0]), '%s line %s' % (P.where(f), n.get('l'))))
    acts = sys_nodes(P, f, ('sigaction',))
    if acts:
      for n in P.nodes(f):
        if n['k'] == 'Bin' and n['op'] == '=' and strip(n['a']) is not None and strip(n['a'])['k'] == 'Mem' and strip(n['a']).get('n', strip(n['a']).get('q', '')).split('::')[-1] in ('sa_handler', 'sa_sigaction'):
          for h in resolve(P, f, n['b']):
            for a in acts:
              out.append((h, const(a['a'][0]), '%s line %s' % (P.where(f), n.get('l'))))
  return out


def examine(ctx, P, h, registered):
  bad = []
  for g in P.reach(h).values():
    ctx.fn(g['q'])
    where = lambda n: '%s line %s' % (P.where(g), n.get('l'))
    for n in P.nodes(g):
      k = n['k']
      if k in ('New', 'Delete', 'Throw'):
        bad.append(('safe', where(n), {'New': 'allocates memory', 'Delete': 'frees memory', 'Throw': 'throws an exception'}[k]))
      elif k == 'Call':
        c = callee(n)
        if c is None:
          bad.append(('safe', where(n), 'calls a function which is not known'))
          continue
        if c['id'] in P.funcs:
          continue
        cls = c.get('cls') or ''
        if cls:
          if not cls.startswith(ATOMIC + PLAIN) and not c.get('pure') and not (c.get('virt') and P.targets(n)):
            bad.append(('safe', where(n), 'calls %s::%s' % (cls, c['n'])))
        elif c['n'] not in SAFE and not c['n'].startswith(('__builtin_', '__atomic_', 'operator')) and (c.get('q') or '') not in ('std::move', 'std::forward', 'std::min', 'std::max', 'std::exchange'):
          bad.append(('safe', where(n), 'calls %s, which is not async-signal-safe' % c['n']))
        elif c['n'] == 'exchange':
          bad += [('state', where(n), w) for w in [written(P, n['a'][0])] if w]
      elif k == 'Ctor':
        c = callee(n)
        cls = (n.get('t') or {}).get('rec') or ''
        if cls.startswith('std::') and not cls.startswith(ATOMIC + PLAIN):
          bad.append(('safe', where(n), 'creates an object of %s' % cls))
      elif k == 'Bin' and n['op'].endswith('=') and n['op'] not in ('==', '!=', '<=', '>='):
        w = written(P, n['a'])
        if w:
          bad.append(('state', where(n), w))
      elif k == 'Un' and ('++' in n['op'] or '--' in n['op']):
        w = written(P, n['a'])
        if w:
          bad.append(('state', where(n), w))
      elif k == 'Mem' and (n.get('t') or {}).get('rec', '').startswith('std::') and not n['t']['rec'].startswith(ATOMIC + PLAIN):
        bad.append(('state', where(n), 'uses an object of %s which the program may be modifying' % n['t']['rec']))
      elif k == 'Ref' and n.get('dk') == 'global':
        r = (n.get('t') or {}).get('rec') or ''
        if r.startswith('std::') and not r.startswith(ATOMIC + PLAIN):
          bad.append(('state', where(n), 'uses an object of %s which the program may be modifying' % r))
  for rule in ('safe', 'state'):
    b = [x for x in bad if x[0] == rule]
    if not b:
      ctx.ob(rule, 'handler %s' % h['q'].split('::')[-1], True, registered, '')
    for _, where, what in b:
      ctx.ob(rule, 'handler %s' % h['q'].split('::')[-1], False, where, 'a signal handler %s (registered at %s)' % (what, registered))


def written(P, e):
  """reason why the object must not be written by a handler"""
  while e is not None and e['k'] in ('Cast', 'Paren', 'Idx'):
    e = e['a']
  if e is None:
    return None
  if e['k'] == 'Un' and e['op'] == '*':
    x = strip(e['a'])
    if x is not None and x['k'] == 'Call' and (callee(x) or {}).get('n') == '__errno_location':
      return None
    return 'writes through a pointer'
  t = e.get('t') or {}
  if e['k'] == 'Mem':
    b = e.get('b')
    while b is not None and b['k'] in ('Cast', 'Paren', 'Mem'):
      b = b.get('b') if b['k'] == 'Mem' else b['a']
    if b is not None and b['k'] == 'Ref' and b.get('dk') in ('var', 'local', 'param') and not (b.get('t') or {}).get('ref') and not (b.get('t') or {}).get('ptr'):
      return None
    if volatile(t):
      return None
    return 'modifies the member %s' % (e.get('n') or e.get('q'))
  if e['k'] == 'Ref':
    if e.get('dk') in ('global', 'slocal'):
      if volatile(t):
        return None
      return 'modifies %s, which is neither atomic nor a volatile sig_atomic_t' % e['n']
    return None
  return None


def volatile(t):
  return 'volatile' in (t.get('s') or '') and ('sig_atomic_t' in (t.get('s') or '') or t.get('bits', 99) <= 64 and not t.get('rec'))


def children_of(ctx, P, h):
  """every path through the handler ends with no finished child left"""
  got = {'ends': 0, 'calls': 0}

  def on_call(I, st, ev):
    if ev.cls or ev.targets:
      return
    if ev.name in ('wait', 'wait3', 'wait4', 'waitid'):
      if ev.name == 'wait':
        ctx.ob('children', 'reaping does not block', False, at(I, ev.node), 'the handler blocks until a child finishes, it is also called when a child is stopped')
        st.mon = 'one'
        return [(st, C1)]
      raise AnalysisError('reaping with %s not understood' % ev.name)
    if ev.name == 'waitpid':
      got['calls'] += 1
      fl = I.rv(st, ev.args[2])
      pid = I.rv(st, ev.args[0])
      if isc(fl):
        ctx.ob('children', 'reaping does not block', bool(fl.a[0] & WNOHANG), at(I, ev.node), 'the handler blocks until a child finishes')
      ctx.ob('children', 'any child is reaped', isc(pid) and pid.a[0] in (-1, 0xffffffff), at(I, ev.node), 'the handler only reaps a certain child')
      a, b, c = st.copy(), st.copy(), st
      r = fresh('pid')
      I.tr[r] = ((1, 1 << 22),)
      k = st.mon[1] if isinstance(st.mon, tuple) else 0
      a.mon, b.mon, c.mon = ('some', k + 1), 'none', 'none'
      return ([(a, r)] if k < 3 else []) + [(b, C0), (c, C(-1))]

  def on_leave(I, st, f, v, node):
    if f['id'] == h['id']:
      got['ends'] += 1
      ctx.ob('children', 'all finished children are reaped', st.mon == 'none', P.where(h), 'the handler may return while a finished child is left, signals of several children are delivered once')
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'wait', 'waitpid', 'wait3', 'wait4', 'waitid'), on_call=on_call, on_leave=on_leave, unroll=6))
  I.run(h, 'start')
  ctx.used(I)
  ctx.need('ends of the child handler', got['ends'], 1)


def reaped(ctx, P, hs):
  forks = [f for f in P.funcs.values() if sys_nodes(P, f, ('fork', 'vfork'))]
  if not forks:
    return
  ign = [n for f in P.funcs.values() for n in sys_nodes(P, f, REGISTER) if const(n['a'][0]) == SIGCHLD and const(n['a'][1]) == 1]
  ok = bool(ign) or any(s == SIGCHLD for _, s, _ in hs)
  waits = all(any(sys_nodes(P, g, ('wait', 'waitpid')) for g in P.reach(f).values()) for f in forks)
  ctx.ob('children', 'finished children are reaped', ok or waits, P.where(forks[0]), 'programs are started but never reaped')

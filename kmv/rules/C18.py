"""C18: only configured terminal commands are ever given to a shell."""
from .common import *
from .C11 import sys_nodes
from .C29 import const_of
from .C26 import subterms
from ..strmodel import parts

TECHNIQUE = 'interprocedural data-flow analysis of process creation over the clang AST (who may start programs, provenance of every text given to a shell)'
NOTE = ('Every call starting a program is followed to the functions determining its arguments. Programs other than shells and interpreters are assumed not to evaluate '
  'their arguments. Libraries are assumed not to start programs.')

SYSTEM = ('system', 'popen')
EXEC = ('execl', 'execlp', 'execle', 'execv', 'execvp', 'execvpe', 'execve')
SPAWN = ('posix_spawn', 'posix_spawnp')
EXPAND = ('wordexp',)
OTHER = ('g_spawn_command_line_async', 'g_spawn_command_line_sync', 'g_spawn_async', 'g_spawn_sync', 'fexecve', 'execveat')
FORK = ('fork', 'vfork', 'clone')
SINKS = SYSTEM + EXEC + SPAWN + EXPAND + OTHER
SHELLS = {'sh', 'bash', 'dash', 'ash', 'zsh', 'ksh', 'mksh', 'csh', 'tcsh', 'fish', 'busybox', 'env', 'su', 'sudo', 'doas', 'pkexec', 'xterm', 'setsid', 'nohup', 'timeout',
  'xargs', 'perl', 'python', 'python3', 'awk', 'osascript', 'systemd-run', 'exec', 'nice', 'time', 'script', 'ssh'}
WRDE_NOCMD = 4
HOOK = 'on_execute_action_message'


def check(ctx):
  ctx.rule('shell', 'a text given to a shell is the terminal command of the action selected by the received index, or constant')
  ctx.rule('programs', 'the daemon and the control program do not start other programs')
  P = load('keymapper')
  ctx.rule('commands', 'terminal commands are only determined by the configuration parser')
  starting = client(ctx, P)
  writers(ctx, P)
  for name in ('keymapperd', 'keymapperctl'):
    Q = load(name)
    fs = 0
    for f in Q.funcs.values():
      fs += 1
      for n in sys_nodes(Q, f, SINKS + FORK):
        if callee(n)['n'] in EXPAND and len(n['a']) > 2 and (const_of(n['a'][2]) or 0) & WRDE_NOCMD:
          continue
        ctx.ob('programs', 'no program is started', False, '%s line %s' % (Q.where(f), n.get('l')), '%s starts a program' % name)
    ctx.ob('programs', '%s starts no programs' % name, True, name, '')
    ctx.need('functions of %s' % name, fs, 50)
  # the same query has to find the calls of the client
  ctx.need('calls starting programs in the client', starting, 2)


def command_field(P):
  r = [f for f in P.records['Config']['fields'] if f['n'] == 'actions']
  if len(r) != 1:
    raise AnalysisError('actions of the configuration not found')
  cls = [x for x in (bare(t) for t in (r[0]['t'].get('ta') or [])) if x in P.records]
  if not cls:
    raise AnalysisError('class of the actions not found')
  texts = [cls[0] + '::' + f['n'] for f in P.records[cls[0]]['fields'] if 'basic_string' in ((f['t'] or {}).get('rec') or '') or (f['t'] or {}).get('s') == 'std::string']
  if len(texts) != 1:
    raise AnalysisError('terminal command of an action not found')
  return texts[0]


def client(ctx, P):
  field = command_field(P)
  callers = P.callers()
  hooks = {f['id'] for f in P.funcs.values() if f['n'] == HOOK}
  if not hooks:
    raise AnalysisError('%s not found' % HOOK)
  commands = set()
  roots = n = 0
  for f in list(P.funcs.values()):
    for call in sys_nodes(P, f, SINKS):
      n += 1
      todo, done = [f], set()
      while todo:
        fn = todo.pop(0)
        if fn['id'] in done:
          continue
        done.add(fn['id'])
        roots += 1
        r = examine(ctx, P, fn, call, field, hooks, commands)
        if not r['sites']:
          raise AnalysisError('call in %s is not reached from %s' % (f['q'], fn['q']))
        if not r['climb']:
          continue
        cs = callers.get(fn['id'], [])
        # a function without captured state which is passed on may be called with anything
        passed = [(g, x) for g, x in cs if x['k'] == 'Ref' or x['k'] == 'Lambda' and not x.get('caps')]
        if passed or not cs:
          for where, why in sorted(r['climb']):
            ctx.ob('shell', 'text given to a shell', False, where, '%s is passed to %s, which is called with other data%s' % (why, fn['q'].split('::')[-1],
              ' through a pointer (%s line %s)' % (P.where(passed[0][0]), passed[0][1].get('l')) if passed else ''))
          break
        todo += [g for g, x in cs]
  ctx.need('examined roots', roots, 3)
  ctx.need('executed terminal commands', len(commands), 1)
  return n


def writers(ctx, P):
  field = command_field(P)
  parser = set()
  for f in P.funcs.values():
    if f.get('cls') == 'ParseConfig':
      parser |= set(P.reach(f))
  if not parser:
    raise AnalysisError('configuration parser not found')
  n = 0
  for f in P.funcs.values():
    m = P.direct_mods(f) & {field, 'Config::actions'}
    if f.get('implicit') or not m:
      continue
    n += 1
    ctx.ob('commands', 'terminal commands are set by the parser', f['id'] in parser, P.where(f), 'terminal commands are changed outside the configuration parser')
  ctx.need('functions setting terminal commands', n, 1)


def examine(ctx, P, fn, call, field, hooks, commands):
  out = {'climb': set(), 'sites': 0, 'decided': set()}
  hook = fn['id'] in hooks

  def from_caller(t):
    return fn.get('lambda') or any(x.k == 'PARAM' and x.a[0] == fn['q'] for x in subterms(t))

  def elements(I, st, a):
    """arguments in an array"""
    v = I.rv(st, a)
    base = v.a[0] if v.k == 'addr' else deref(v)
    if base.k == 'E' and isc(base.a[1]) and base.a[1].a[0] == 0:
      base = base.a[0]
    for l in (v, I.load_whole(st, base)):
      if l.k == 'list':
        return [x for x in l.a if not (isc(x) and x.a[0] == 0)]
    return None

  def is_command(t):
    """the command of the action with the index this function was called with"""
    if not str(t).endswith('.' + field.split('::')[-1]) or t.k not in ('F', 'fld', 'ver', 'sel'):
      return False
    return hook and any(x.k in ('elt', 'E') and x.a[1].k == 'PARAM' and x.a[1].a[0] == fn['q'] for x in subterms(t))

  def judge(I, st, node, t, what):
    where = at(I, node)
    bad = None
    for p in parts(t):
      if p.k == 's' or isc(p):
        continue
      if is_command(p):
        commands.add(where)
        continue
      if from_caller(p) and not hook:
        out['climb'].add((where, what))
        return
      bad = p
    out['decided'].add(where)
    ctx.ob('shell', what, bad is None, where, '%s is not the terminal command of the action which was requested%s' %
      (what, '' if fn['n'] in where else ' (called by %s)' % fn['q'].split('::')[-1]))

  def on_call(I, st, ev):
    if ev.cls or ev.targets:
      return
    if ev.name not in SINKS or ev.node is not call:
      return
    out['sites'] += 1
    where = at(I, ev.node)
    if ev.name in SYSTEM or ev.name in OTHER:
      judge(I, st, ev.node, I.rv(st, ev.args[0]), 'a text given to a shell')
      return
    if ev.name in EXPAND:
      fl = I.rv(st, ev.args[2])
      if isc(fl) and fl.a[0] & WRDE_NOCMD or fl.k == 'bitor' and any(isc(x) and x.a[0] & WRDE_NOCMD for x in fl.a):
        out['decided'].add(where)
        ctx.ob('shell', 'expanding words does not run commands', True, where, '')
        return
      judge(I, st, ev.node, I.rv(st, ev.args[0]), 'a text in which commands are substituted')
      return
    first = 1 if ev.name in SPAWN else 0
    prog = I.rv(st, ev.args[first])
    if ev.name in ('execv', 'execvp', 'execvpe', 'execve') + SPAWN:
      args = elements(I, st, ev.args[first + 1 if ev.name not in SPAWN else 4])
    else:
      args = [I.rv(st, a) for a in ev.args[1:]]
    ps = parts(prog)
    if any(from_caller(p) for p in ps) and not hook:
      out['climb'].add((where, 'a started program'))
      return
    if not all(p.k == 's' for p in ps):
      judge(I, st, ev.node, prog, 'a started program')
      return
    name = ps[0].a[0].split('/')[-1] if ps else ''
    if name not in SHELLS:
      out['decided'].add(where)
      ctx.ob('shell', 'program %s is not a shell' % name, True, where, '')
      return
    if args is None:
      raise AnalysisError('arguments of a shell not understood: %s' % where)
    for a in args[1:]:
      judge(I, st, ev.node, a, 'a text given to a shell')

  I = Interp(P, Spec(interest=lambda n: n is call, on_call=on_call))
  I.run(fn, (), obj=mk('OBJ', fn['cls'], 'this') if fn.get('cls') else None)
  ctx.used(I)
  return out

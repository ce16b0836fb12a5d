"""C05: the emergency exit combination always stops the daemon's grab."""
from .common import *

TECHNIQUE = 'abstract interpretation of the key engine and main loop over the clang AST (definite reachability of the exit query)'
NOTE = 'All paths through recognition, translation and main loop for an unknown configuration and engine state; no bound on either.'

COMBO = ('ShiftLeft', 'Escape', 'K')


def check(ctx):
  P = load('keymapperd')
  ctx.rule('recognise', 'abstract run of the engine update for release-of-any-key, ShiftLeft, Escape, K (unknown configuration, '
    'unknown device): afterwards the exit query is definitely true on every path')
  ctx.rule('first-stage', 'every path of the multi-stage update with at least one stage hands the original event to the first stage')
  ctx.rule('query', 'the multi-stage exit query returns the first stage\'s answer whenever there is a stage')
  ctx.rule('translate', 'every path of the server\'s input translation passes the event to the engine (except repeats of the last event and '
    'keys consumed by a key info request) and requests the exit whenever the engine reports the combination')
  ctx.rule('stop', 'after an exit request no further input is read from grabbed devices and no further session is started, on any path')
  recognise(ctx, P)
  first_stage(ctx, P)
  translate(ctx, P)
  stop(ctx, P)


def mkevent(P, key, state):
  return mk('rec', ZERO, (('KeyEvent::key', key), ('KeyEvent::state', state), ('KeyEvent::value', C0)))


def recognise(ctx, P):
  upd, ex = method(P, 'Stage::update'), method(P, 'Stage::should_exit')
  pos_fields = exit_fields(P, ex)
  ctx.need('fields the exit query depends on', len(pos_fields), 1)
  rule = Spec(interest=lambda n: n['k'] == 'Mem' and n.get('q') in pos_fields)
  I = Interp(P, rule)
  obj = mk('OBJ', 'Stage')
  kv = lambda n: C(enum_val(P, 'Key', n))
  down, up = C(enum_val(P, 'KeyState', 'Down')), C(enum_val(P, 'KeyState', 'Up'))
  I.stack.append((None, 0, False, None))
  anykey = kv('A')
  for rep in (False, True):
    s = State(mon=None)
    seq = [(anykey, up)]
    for k in COMBO:
      seq.append((kv(k), down))
      if rep:
        seq.append((kv(k), down))      # key repeat of a held key
        seq.append((C(enum_val(P, 'Key', 'timeout')), up))   # a pending timeout elapses
    states = [s]
    for i, (k, st) in enumerate(seq):
      dev = mk('PARAM', 'dev', i, 0)
      r = stepwise(I, upd, states, obj, lambda s: [mkevent(P, k, st), dev], ('u', rep, i))
      states = I.reduce([x for x, _ in r], ex['body'])
      states = [x for x in states]
    r = stepwise(I, ex, states, obj, lambda s: [], ('x', rep))
    ctx.used(I)
    ok = bool(r) and all(I.truth(x, v) is True for x, v in r)
    ctx.ob('recognise', 'combination %s' % ('with repeats and timeouts' if rep else 'plain'), ok, P.where(upd),
      'after ShiftLeft, Escape, K the exit query is not definitely true')
  # the query is not stuck at true: without the last key it must not already report exit
  states = [State(mon=None)]
  for i, (k, st) in enumerate([(anykey, up), (kv('ShiftLeft'), down)]):
    r = stepwise(I, upd, states, obj, lambda s: [mkevent(P, k, st), mk('PARAM', 'd', i, 1)], ('v', i))
    states = [x for x, _ in r]
  r = stepwise(I, ex, states, obj, lambda s: [], 'v')
  ctx.ob('recognise', 'ShiftLeft alone does not exit', bool(r) and all(I.truth(x, v) is False for x, v in r), P.where(ex),
    'the exit query is not definitely false after ShiftLeft alone')
  I.stack.pop()


def exit_fields(P, ex):
  out = set()
  for f in P.reach(ex).values():
    for n in P.nodes(f):
      if n['k'] == 'Mem' and not callee(n) and n.get('q', '').startswith('Stage::'):
        out.add(n['q'])
  return out


def first_stage(ctx, P):
  upd, q = method(P, 'MultiStage::update'), method(P, 'MultiStage::should_exit')
  stages = stage_list(P)
  bufs = [f['n'] for f in P.records['MultiStage']['fields'] if bare((f['t'] or {}).get('rec') or '') in ('KeySequence', 'std::vector')
    and 'KeyEvent' in (f['t'] or {}).get('s', '') + ((f['t'] or {}).get('rec') or '') or (f['t'] or {}).get('rec') == 'KeySequence']
  ev_par = mk('PARAM', upd['q'], upd['params'][0]['n'], 0)
  sites = []

  def on_call(I, st, ev):
    if calls_method(ev, P, 'Stage', 'update') and ev.obj is not None and upd['id'] != ev.c['id'] and ev.cls == 'Stage':
      arg = I.rv(st, ev.args[0])
      first = is_first(I, st, ev.obj, stages)
      sites.append(at(I, ev.node))
      if first and arg is ev_par or first and I.fld(arg, 'KeyEvent::key') is I.fld(ev_par, 'KeyEvent::key'):
        st.mon = 'fed'
      return [(st, fresh('output'))]
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'update'), on_call=on_call))
  obj = mk('OBJ', 'MultiStage')

  def setup(I, s, args):
    for b in bufs:
      s.env[F(obj, 'MultiStage::' + b)] = mk('list')
  r = I.run(upd, 'none', obj=obj, setup=setup)
  ctx.used(I)
  ctx.need('calls of the stage update', len(set(sites)), 1)
  for st, v in r:
    n = I.sizeterm(st, F(obj, stages))
    ok = st.mon == 'fed' or I.truth(st, eq(n, C0)) is True
    ctx.ob('first-stage', 'MultiStage::update', ok, P.where(upd), 'a path does not pass the event to the first stage')
  ctx.assume('the multi-stage output buffer is empty when an update starts (it is handed out by move and returned cleared)')

  def on_call2(I, st, ev):
    if ev.name == 'should_exit' and ev.cls == 'Stage':
      if not is_first(I, st, ev.obj, stages):
        return [(st, fresh('other'))]
      out = []
      for x in (C1, C0):
        s = st.copy()
        s.mon = x
        out.append((s, x))
      return out
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'should_exit'), on_call=on_call2))
  r = I.run(q, None, obj=obj)
  for st, v in r:
    n = I.sizeterm(st, F(obj, stages))
    ok = I.truth(st, eq(n, C0)) is True or st.mon is not None and I.truth(st, v) is (st.mon is C1)
    ctx.ob('query', 'MultiStage::should_exit', ok, P.where(q), 'returns something else than the first stage\'s answer')
  ctx.used(I)


def stage_list(P):
  for f in P.records['MultiStage']['fields']:
    if 'Stage' in (f['t'] or {}).get('s', '') and bare((f['t'] or {}).get('rec') or '') == 'std::vector':
      return 'MultiStage::' + f['n']
  raise AnalysisError('MultiStage has no list of stages')


def is_first(I, st, obj, stages):
  """obj is *m_stages[0]"""
  if obj is None or obj.k != 'D':
    return False
  p = obj.a[0]
  l = None
  if p.k == 'elt':
    base, idx = p.a
    return idx is C0 and base.k == 'ini' and base.a[0].k == 'F' and base.a[0].a[1] == stages
  if p.k == 'ini' and p.a[0].k == 'E':
    l = p.a[0]
    return l.a[1] is C0 and fieldq(l) == stages
  return False


def translate(ctx, P):
  fn = method(P, 'ServerState::translate_input')
  inp = mk('PARAM', fn['q'], fn['params'][0]['n'], 0)
  key = mk('fld', inp, 'KeyEvent::key')
  kef = [f['n'] for f in P.records['ServerState']['fields'] if (f['t'] or {}).get('rec') == 'KeyEvent']
  obj = mk('OBJ', 'ServerState')
  seen = {'update': 0, 'query': 0, 'request': 0}
  top = fn['id']

  def on_call(I, st, ev):
    if ev.name == 'update' and ev.cls == 'MultiStage':
      seen['update'] += 1
      if I.fld(I.rv(st, ev.args[0]), 'KeyEvent::key') is key:
        st.mon = ('updated', 0)
      return [(st, fresh('output'))]
    if ev.name == 'should_exit' and ev.cls in ('MultiStage', 'ServerState'):
      seen['query'] += 1
      s2 = st.copy()
      if st.mon[0] == 'updated':
        st.mon = ('exit', 0)
      s2.mon = ('noexit', 0) if st.mon[0] == 'exit' else s2.mon
      return [(st, C1), (s2, C0)]
    if ev.name == 'on_exit_requested':
      seen['request'] += 1
      if st.mon[0] == 'exit':
        st.mon = ('requested', 0)
      return [(st, VOID)]
    if ev.name == 'send_next_key_info':
      st.mon = ('info', 0)
      return [(st, VOID)]
    if ev.name == 'translate_input' or (ev.c['id'] in recs):
      # separate event: what it does is decided by the same rule
      I.havoc_fields(st, P.mods(fn))
      return [(st, fresh('b'))]
  recs = {fn['id']}
  names = ('update', 'should_exit', 'on_exit_requested', 'send_next_key_info')
  I = Interp(P, Spec(interest=lambda n: node_calls(n, *names), on_call=on_call, inline=lambda I, f: False if
    f['q'] in ('ServerState::reset_configuration', 'ServerState::flush_send_buffer', 'ServerState::set_active_contexts') else None))
  r = I.run(fn, ('start', 0), obj=obj)
  ctx.used(I)
  ctx.need('engine updates in translate_input', seen['update'], 1)
  ctx.need('exit queries in translate_input', seen['query'], 1)
  for st, v in r:
    m = st.mon[0]
    if m in ('requested', 'noexit', 'info'):
      ok, msg = True, ''
    elif m == 'start':
      rep = any(I.truth(st, eq(key, I.fld(I.load(st, F(obj, 'ServerState::' + f)), 'KeyEvent::key'))) or
        I.truth(st, eq(key, I.load(st, F(F(obj, 'ServerState::' + f), 'KeyEvent::key')))) for f in kef)
      ok, msg = rep, 'a path returns without passing the event to the engine although it is not a repeat of the last event'
    elif m == 'updated':
      ok, msg = False, 'a path does not ask whether the exit combination was completed'
    else:
      ok, msg = False, 'the exit combination was recognised but no exit is requested'
    ctx.ob('translate', 'path class %s' % m, ok, P.where(fn), msg)


def stop(ctx, P):
  """after on_exit_requested nothing is read from the devices any more"""
  hooks = [f for f in impls(P, 'ServerState::on_exit_requested')]
  ctx.need('implementations of the exit request', len(hooks), 1)
  main = P.find1('main')
  seen = {'read': 0, 'accept': 0}

  def on_call(I, st, ev):
    if ev.name == 'translate_input' and ev.cls in ('ServerState',) or ev.name == 'translate_input' and is_a(P, ev.cls, 'ServerState'):
      s2 = st.copy()
      out = [(s2, C1)]
      # the exit combination was completed by this event: the request hook runs
      for h in hooks:
        for s3, _ in I.invoke(h, st, ev.obj, [], ev.node):
          s3.mon = 'exit'
          out.append((s3, C1))
      return out
    if ev.name == 'read_input_event':
      seen['read'] += 1
      ctx.ob('stop', 'read_input_event', st.mon != 'exit', at(I, ev.node),
        'input of grabbed devices is read again after the exit was requested')
      if st.mon == 'exit':
        return []
      return None
    if ev.name == 'accept_client_connection':
      seen['accept'] += 1
      ctx.ob('stop', 'accept_client_connection', st.mon != 'exit', at(I, ev.node),
        'another session is started after the exit was requested')
      if st.mon == 'exit':
        return []
    if ev.name in ('should_exit',) and is_a(P, ev.cls, 'ServerState'):
      # the engine was reset by the exit; no help from this query
      if st.mon == 'exit':
        return [(st, C0)]
    if ev.name in ('flush_send_buffer', 'read_client_messages', 'set_device_descs') and is_a(P, ev.cls, 'ServerState'):
      v = fresh(ev.name)
      I.settype(v, ev.c.get('ret'))
      return [(st, v)]
  I = Interp(P, Spec(interest=lambda n: node_calls(n, 'translate_input', 'read_input_event', 'accept_client_connection', 'on_exit_requested')
    , on_call=on_call, inline=lambda I, f: False if P.rel(f).startswith('src/server/ServerState') else None))
  r = I.run(main, 'run')
  ctx.used(I)
  ctx.need('reads of grabbed input', seen['read'], 1)
  ctx.need('accepts of client connections', seen['accept'], 1)
  ctx.ob('stop', 'main terminates after exit', any(s.mon == 'exit' for s, _ in r), P.where(main),
    'no path from the exit request to the end of the program')

"""C21: keymapperctl exit codes mean what is documented."""
from .common import *
from .wire import *

TECHNIQUE = 'path-sensitive abstract interpretation of the control program over the clang AST (exit code of every path against the outcome of its last request)'
NOTE = ('Each documented operation alone, in pairs with operations that make no request, after another request and in invalid argument lists; '
  'every outcome of connecting, sending and receiving, replies with unknown state.')

YES, NO, INVALID, FAILED, TIMEOUT, NOT_FOUND = range(6)


def check(ctx):
  P = load('keymapperctl')
  ctx.rule('invalid', 'an invalid argument list exits with 2 without connecting')
  ctx.rule('connection', 'a failed connection, a failed send or a failed read of the last request exits with 3')
  ctx.rule('timeout', 'a request that is not answered in time exits with 4')
  ctx.rule('answer', 'an answered request exits with 0 or 1 as documented for the operation and with 5 if the key is unknown')
  ctx.rule('kept', 'operations that make no request keep the result of the last one')
  K = kinds_of(P)
  up, down = enum_val(P, 'KeyState', 'Up'), enum_val(P, 'KeyState', 'Down')
  main = P.find1('main')
  n = {'paths': 0}

  # operation: (arguments, exit codes by state of the reply {up, down, other})
  state_ops = {
    '--press': (YES, YES, NOT_FOUND), '--release': (YES, YES, NOT_FOUND), '--toggle': (YES, YES, NOT_FOUND),
    '--is-pressed': (NO, YES, NOT_FOUND), '--is-released': (YES, NO, NOT_FOUND),
  }
  bool_ops = {'--set-config': ['file'], '--input': ['A'], '--output': ['A'], '--type': ['text']}
  wait_ops = {'--wait-pressed': down, '--wait-released': up, '--wait-toggled': None}

  def runs(argv, what, judge):
    def values(t):
      return fresh('state') if t == 'KeyState' else mk('PARAM', 'info', 0, 0) if t == 'string' else None
    if argv[0] != '--timeout' and len(argv) <= 2:
      # also with a limited time
      runs(['--timeout', '100'] + argv, '--timeout 100 ' + what, judge)
    I, r = control_args(P, ctx, argv, [(K['virtual_key_state'], values), (K['next_key_info'], values)])
    if not r:
      raise AnalysisError('no path returns for %s' % ' '.join(argv))
    for st, code in r:
      n['paths'] += 1
      log = st.mon
      if any(x[0] == 'connect' and not x[1] for x in log):
        ok = log[-1] == ('connect', False) and I.truth(st, eq(code, C(FAILED))) is True
        ctx.ob('connection', what + ': connecting fails', ok, P.where(main), 'does not exit with %d' % FAILED)
        continue
      judge(I, st, code, log)

  def last(log):
    """(outcome, number of requests) of the last request"""
    k = max([i for i, x in enumerate(log) if x[0] == 'msg'], default=None)
    if k is None:
      return None, 0
    rest = log[k + 1:]
    cnt = sum(1 for x in log if x[0] == 'msg')
    if any(x[0] == 'sendfail' for x in rest):
      return 'failed', cnt
    rd = [x for x in rest if x[0] == 'read']
    if len(rd) != 1:
      return 'unread', cnt
    return rd[0][2], cnt

  def common(I, st, code, what, outcome):
    if outcome in ('failed', 'fail'):
      ctx.ob('connection', what + ': ' + ('sending fails' if outcome == 'failed' else 'connection is lost'),
        I.truth(st, eq(code, C(FAILED))) is True, P.where(main), 'does not exit with %d' % FAILED)
      return True
    if outcome == 'none':
      ctx.ob('timeout', what + ': no answer', I.truth(st, eq(code, C(TIMEOUT))) is True, P.where(main), 'does not exit with %d' % TIMEOUT)
      return True
    if outcome == 'unread':
      ctx.ob('answer', what + ': reads an answer', False, P.where(main), 'the answer is not read')
      return True
    return False

  def by_state(I, st, code, what, table):
    """exit code for each possible state of the last reply"""
    v = states(st)[-1] if states(st) else None
    if v is None:
      # the state was not looked at
      for c in set(table):
        ctx.ob('answer', what, I.truth(st, eq(code, C(c))) is True, P.where(main), 'the exit code does not depend on the answer')
      return
    for name, want, c in (('off', up, table[0]), ('on', down, table[1]), ('unknown key', None, table[2])):
      iv = I.interval(st, v)
      if want is not None:
        possible = any(a <= want <= b for a, b in iv)
      else:
        possible = any(not (a >= min(up, down) and b <= max(up, down)) for a, b in iv)
      if possible:
        ctx.ob('answer', '%s answered with %s' % (what, name), I.truth(st, eq(code, C(c))) is True, P.where(main), 'does not exit with %d' % c)

  def states(st):
    return [x[2] for x in st.mon if x[0] == 'replied' and x[1] == 'KeyState']

  for op, table in state_ops.items():
    for extra in ([], ['--stdout'], ['--wait', '10']):
      what = ' '.join([op, 'key'] + extra)

      def judge(I, st, code, log):
        outcome, cnt = last(log)
        if common(I, st, code, what, outcome):
          return
        if outcome == K['next_key_info']:
          return common(I, st, code, what, 'none')
        by_state(I, st, code, what, table)
      runs([op, 'key'] + extra, what, judge)
  for op, args in bool_ops.items():
    what = ' '.join([op] + args)

    def judge(I, st, code, log):
      outcome, cnt = last(log)
      if outcome is None and op == '--set-config':
        return          # the path cannot be made absolute
      if common(I, st, code, what, outcome):
        return
      if outcome == K['next_key_info']:
        return common(I, st, code, what, 'none')
      by_state(I, st, code, what, (NO, YES, NO))
    runs([op] + args, what, judge)
  for op, awaited in wait_ops.items():
    what = op + ' key'

    def judge(I, st, code, log):
      outcome, cnt = last(log)
      if common(I, st, code, what, outcome):
        return
      if outcome == K['next_key_info']:
        return common(I, st, code, what, 'none')
      if cnt == 1:
        by = [None if awaited is None else YES if awaited == s else None for s in (up, down)]
        v = states(st)[-1] if states(st) else None
        if v is None:
          ctx.ob('answer', what, False, P.where(main), 'returns without looking at the state')
          return
        iv = I.interval(st, v)
        for name, s, c in (('off', up, by[0]), ('on', down, by[1])):
          if any(a <= s <= b for a, b in iv):
            ctx.ob('answer', '%s answered with %s' % (what, name), c is not None and I.truth(st, eq(code, C(c))) is True, P.where(main),
              'does not wait for the state')
        if any(a > max(up, down) for a, b in iv):
          ctx.ob('answer', what + ' answered with unknown key', I.truth(st, eq(code, C(NOT_FOUND))) is True, P.where(main), 'does not exit with %d' % NOT_FOUND)
      else:
        first = states(st)[:1]
        if first:
          iv = I.interval(st, first[0])
          ctx.ob('answer', what + ' waits only for a known key', not any(a > max(up, down) or b > max(up, down) for a, b in iv), P.where(main),
            'waits for a change of an unknown key')
          if awaited is not None:
            ctx.ob('answer', what + ' waits only if not yet reached', not any(a <= awaited <= b for a, b in iv), P.where(main),
              'waits although the state is reached')
        ctx.ob('answer', what + ' after the change', I.truth(st, eq(code, C(YES))) is True, P.where(main), 'does not exit with 0')
    runs([op, 'key'], what, judge)

  def judge(I, st, code, log):
    outcome, cnt = last(log)
    if common(I, st, code, '--instance id', outcome):
      return
    if outcome == K['next_key_info']:
      return common(I, st, code, '--instance id', 'none')
    ctx.ob('answer', '--instance id', I.truth(st, eq(code, C(YES))) is True, P.where(main), 'does not exit with 0')
  runs(['--instance', 'id'], '--instance id', judge)

  def judge(I, st, code, log):
    outcome, cnt = last(log)
    if common(I, st, code, '--next-key-info', outcome):
      return
    if outcome != K['next_key_info']:
      return common(I, st, code, '--next-key-info', 'none')
    empty = I.truth(st, eq(I.sizeof(mk('PARAM', 'info', 0, 0)), C0))
    ctx.ob('answer', '--next-key-info' + (' with empty answer' if empty else ''),
      I.truth(st, eq(code, C(YES))) is True or empty is not False and I.truth(st, eq(code, C(TIMEOUT))) is True, P.where(main), 'does not exit with 0')
  runs(['--next-key-info'], '--next-key-info', judge)

  # no request
  for argv in (['--wait', '10'], ['--stdout']):
    def judge(I, st, code, log):
      ctx.ob('kept', ' '.join(argv), I.truth(st, eq(code, C(YES))) is True, P.where(main), 'does not exit with 0 although nothing failed')
    runs(argv, ' '.join(argv), judge)
  # the last request counts
  for argv in (['--is-pressed', 'key', '--press', 'other'], ['--press', 'key', '--is-released', 'other'], ['--set-config', 'file', '--is-pressed', 'key']):
    what = ' '.join(argv)
    table = state_ops[argv[2]]

    def judge(I, st, code, log):
      outcome, cnt = last(log)
      if cnt < 2:
        return
      if common(I, st, code, what, outcome):
        return
      if outcome == K['next_key_info']:
        return common(I, st, code, what, 'none')
      by_state(I, st, code, what, table)
    runs(argv, what, judge)
  # invalid arguments
  for argv in ([], ['--foo'], ['--press'], ['--is-pressed'], ['--wait'], ['--timeout'], ['--timeout', '10'], ['--set-config'], ['--instance'], ['--type'],
      ['--press', 'key', '--foo'], ['--press', 'key', '--is-pressed'], ['key'], ['--help']):
    I, r = control_args(P, ctx, argv, [(K['virtual_key_state'], lambda t: None)])
    what = ' '.join(argv) or 'no arguments'
    ctx.need('paths for ' + what, len(r), 1)
    for st, code in r:
      ctx.ob('invalid', what, not st.mon and I.truth(st, eq(code, C(INVALID))) is True, P.where(main), 'does not exit with %d' % INVALID)
  ctx.need('paths of the control program', n['paths'], 150)

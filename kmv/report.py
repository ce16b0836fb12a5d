"""Obligations, violations and evidence of one check run."""
import json
import os
import sys
import time
from . import facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known-findings.txt')


class Ctx:
  def __init__(self, prop, tier):
    self.prop = prop
    self.tier = tier
    self.thorough = tier == 'thorough'
    self.obls = {}          # (rule, key) -> [ok, where, message]
    self.rules = {}         # rule -> text
    self.fns = set()
    self.sites = set()
    self.assumptions = []
    self.counts = {}
    self.t0 = time.time()

  def rule(self, rid, text):
    self.rules[rid] = text

  def ob(self, rid, key, ok, where='', msg=''):
    """one obligation; repeated reports of the same obligation are conjoined"""
    k = (rid, str(key))
    o = self.obls.get(k)
    if o is None:
      self.obls[k] = [bool(ok), where, '' if ok else msg]
    elif o[0] and not ok:
      o[0], o[1], o[2] = False, where, msg
    return ok

  def need(self, what, have, least):
    """instances the rule must find; fewer means that the analysis lost its subject"""
    self.counts[what] = have
    if have < least:
      raise facts.AnalysisError('%s: found %d, expected at least %d' % (what, have, least))

  def fn(self, *fs):
    for f in fs:
      self.fns.add(f['q'] if isinstance(f, dict) else f)

  def site(self, s):
    self.sites.add(s)

  def used(self, I):
    """functions an interpreter run went through"""
    for f in I.fn_inlined.values():
      self.fns.add(f['q'])

  def assume(self, text):
    if text not in self.assumptions:
      self.assumptions.append(text)


def known_findings(prop):
  out = []
  if os.path.exists(KNOWN):
    for l in open(KNOWN):
      l = l.strip()
      if not l or l.startswith('#') or l.startswith('fixed:'):
        continue
      parts = dict(p.split('=', 1) for p in l.split(' | ')[0].split() if '=' in p)
      if parts.get('property') == prop:
        out.append((parts.get('rule'), parts.get('key'), l.split(' | ', 1)[1]))
  return out


def finish(ctx, seed):
  viol = [(r, k, o) for (r, k), o in ctx.obls.items() if not o[0]]
  known = known_findings(ctx.prop)
  fresh_v, listed = [], []
  for r, k, o in viol:
    m = [x for x in known if x[0] == r and x[1] == k.replace(' ', '_')]
    (listed if m else fresh_v).append((r, k, o, m))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  if not ctx.obls:
    raise facts.AnalysisError('no obligations were generated')
  byrule = {}
  for (r, k), o in ctx.obls.items():
    b = byrule.setdefault(r, {'rule': ctx.rules.get(r, r), 'obligations': 0, 'discharged': 0})
    b['obligations'] += 1
    b['discharged'] += bool(o[0])
  ev = {
    'property': ctx.prop, 'tier': ctx.tier, 'seed': seed, 'level': 'other',
    'coverage': {
      'explanation': 'static analysis of the clang AST of /repo\'s current sources; each obligation is a construct '
        '(function, path set, call site or pair of sites) the rule was decided for',
      'obligations': len(ctx.obls), 'discharged': len(ctx.obls) - len(viol),
      'functions_analysed': len(ctx.fns), 'functions': sorted(ctx.fns)[:80],
      'rules': byrule, 'instances': ctx.counts,
      'samples': [{'rule': r, 'obligation': k, 'at': o[1], 'ok': o[0]} for (r, k), o in list(ctx.obls.items())[:25]],
      'source_tree': facts.tree_hash(),
    },
    'assumptions': ctx.assumptions,
    'wall_s': round(time.time() - ctx.t0, 2),
  }
  if viol:
    ev['violations'] = [{'rule': r, 'obligation': k, 'at': o[1], 'message': o[2], 'known': any(x[1] == k and x[0] == r for x in listed)}
      for r, k, o in viol]
  path = os.path.join(VERIF, 'evidence', ctx.prop + '.json')
  with open(path, 'w') as f:
    json.dump(ev, f, indent=1, ensure_ascii=False)
  for r, k, o, m in listed:
    print('KNOWN-FINDING: property=%s %s' % (ctx.prop, m[0][2]))
  print('%s: %d obligations, %d discharged, %d functions, %.1fs' % (ctx.prop, len(ctx.obls), len(ctx.obls) - len(viol),
    len(ctx.fns), time.time() - ctx.t0))
  if fresh_v:
    rp = os.path.join(VERIF, 'evidence', ctx.prop + '.violations.txt')
    with open(rp, 'w') as f:
      for r, k, o, _ in fresh_v:
        t = '%s [%s] %s: %s\n  rule: %s\n' % (o[1] or '?', r, k, o[2], ctx.rules.get(r, ''))
        f.write(t)
        print(t, end='')
    print('VIOLATION property=%s replay=%s' % (ctx.prop, rp))
    return 1
  return 0

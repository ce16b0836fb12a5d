#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the rule modules that exist (their TECHNIQUE and NOTE)."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
  'C16': 'Not claimed: the context indices of a message are checked by assertions only, which vanish in a release build; a repair needs a decision of the maintainers about the reaction to such messages, and no rule was found which accepts the current code for the right reason.',
  'C20': 'Not claimed: needs an alias analysis of references into containers across callbacks; no check with an acceptable rate of false alarms was finished.',
  'C30': 'Quantifies over arbitrary configurations and unbounded key histories and compares outputs with the documented mapping semantics; no structural condition on the source implies it, and a concrete or symbolic run would leave this technique family.',
  'C31': 'Quantifies over wall-clock time and kernel scheduling, which no static argument about the source can bound.',
}
BASE = 'Trusted: clang 18 front end, the extractor and the abstract interpreter in kmv/, the models of the standard library and system calls in kmv/stdmodel.py. Only the Linux build configuration is analysed.'
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
  pid = json.loads(line)['id']
  path = os.path.join(V, 'kmv', 'rules', pid + '.py')
  if not os.path.exists(path):
    na.append({'property': pid, 'reason': NA.get(pid, 'Not claimed: no check has been built for it yet.')})
    continue
  vals = {}
  for n in ast.parse(open(path).read()).body:
    if isinstance(n, ast.Assign) and n.targets[0].id in ('TECHNIQUE', 'NOTE') if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
      vals[n.targets[0].id] = ast.literal_eval(n.value)
  checks.append({
    'property': pid,
    'quick_cmd': 'python3 check.py %s quick' % pid,
    'thorough_cmd': 'python3 check.py %s thorough' % pid,
    'evidence_file': 'evidence/%s.json' % pid,
    'technique': vals['TECHNIQUE'],
    'level': 'other',
    'level_note': vals['NOTE'] + ' ' + BASE,
  })
m = {
  'version': 1,
  'setup_cmd': 'bash tool/build.sh',
  'checks': checks,
  'not_applicable': na,
  'notes': 'Static analysis only: every check extracts the type-checked program of /repo\'s current sources (cached by content hash under .cache) and decides its rules on it; nothing of keymapper is executed. Exit 3 means the analysis could not decide.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print('%d checks, %d not claimed' % (len(checks), len(na)))

#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property on /repo's current sources."""
import importlib
import os
import sys
import traceback

sys.setrecursionlimit(30000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from kmv import facts, report


def main():
  prop = sys.argv[1]
  tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  ctx = report.Ctx(prop, tier)
  try:
    importlib.import_module('kmv.rules.' + prop).check(ctx)
    return report.finish(ctx, seed)
  except facts.AnalysisError as e:
    if any(not o[0] for o in ctx.obls.values()) and report.finish(ctx, seed) == 1:
      print('analysis incomplete: %s' % e)
      return 1
    print('ANALYSIS-ERROR property=%s %s' % (prop, e))
    return 3
  except Exception:
    traceback.print_exc()
    print('ANALYSIS-ERROR property=%s internal error' % prop)
    return 3


import threading
threading.stack_size(512 * 1024 * 1024)
res = []
t = threading.Thread(target=lambda: res.append(main()))
t.start()
t.join()
sys.stdout.flush()
os._exit(res[0] if res else 3)

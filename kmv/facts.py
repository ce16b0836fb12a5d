"""Facts: the resolved AST of every function of the three programs, taken from
/repo's current working tree by the libTooling extractor."""
import fcntl, glob, hashlib, json, os, pickle, shlex, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KMV_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PROGRAMS = ('keymapper', 'keymapperd', 'keymapperctl')
CMAKE_ARGS = ['-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DENABLE_TEST=OFF',
  '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DENABLE_X11=ON',
  '-DENABLE_XKBCOMMON=ON', '-DENABLE_DBUS=ON', '-DENABLE_WAYLAND=ON',
  '-DENABLE_APPINDICATOR=ON']


class AnalysisError(Exception):
  """The analysis could not be carried out (exit status neither 0 nor 1)."""


def run(cmd, **kw):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
  if r.returncode != 0:
    raise AnalysisError('%s failed:\n%s' % (' '.join(cmd[:4]), r.stdout[-3000:]))
  return r.stdout


def tree_hash():
  h = hashlib.sha256()
  files = []
  for base in ('src', 'cmake'):
    for d, dn, fn in os.walk(os.path.join(REPO, base)):
      dn[:] = sorted(x for x in dn if x != 'test')
      files += [os.path.join(d, f) for f in fn]
  files.append(os.path.join(REPO, 'CMakeLists.txt'))
  files.append(os.path.join(VERIF, 'tool', 'kmextract.cpp'))
  files.append(os.path.abspath(__file__))
  for f in sorted(files):
    if os.path.basename(f) == '_version.h' or not os.path.isfile(f):
      continue
    h.update(f.encode() + b'\0')
    with open(f, 'rb') as fp:
      h.update(hashlib.sha256(fp.read()).digest())
  return h.hexdigest()[:24]


def compile_commands(scratch):
  run(['cmake', '-S', REPO, '-B', scratch] + CMAKE_ARGS)
  db = json.loads(subprocess.run(['ninja', '-C', scratch, '-t', 'compdb'],
    stdout=subprocess.PIPE, text=True, check=True).stdout)
  # generated headers (wayland protocol)
  hdrs = sorted({o for e in db for o in [e['output']] if o.endswith('-client-protocol.h')})
  for h in hdrs:
    run(['ninja', '-C', scratch, h])
  out = {}
  for e in db:
    o = e['output']
    if not o.endswith('.o') or not e['file'].endswith(('.cpp', '.cc', '.cxx')):
      continue
    prog = o.split('/')[1].split('.dir')[0] if o.startswith('CMakeFiles/') else None
    if prog not in PROGRAMS:
      continue
    args = shlex.split(e['command'])[1:]
    res, i = [], 0
    while i < len(args):
      a = args[i]
      if a in ('-o', '-MT', '-MF', '-MQ'):
        i += 2
        continue
      if a in ('-c', '-MD', '-MMD', '-g') or a == e['file'] or a.startswith('-W') or a.startswith('-O'):
        i += 1
        continue
      res.append(a)
      i += 1
    f = e['file'] if os.path.isabs(e['file']) else os.path.join(scratch, e['file'])
    out.setdefault(prog, []).append((os.path.normpath(f), tuple(res)))
  for p in PROGRAMS:
    if not out.get(p):
      raise AnalysisError('no translation units found for program ' + p)
  return out


def extract_all():
  """-> {program: [tu dict]}"""
  tool = os.path.join(VERIF, 'build', 'kmextract')
  run(['bash', os.path.join(VERIF, 'tool', 'build.sh')])
  os.makedirs(CACHE, exist_ok=True)
  scratch = tempfile.mkdtemp(prefix='scratch-', dir=CACHE)
  try:
    cc = compile_commands(os.path.join(scratch, 'cmake'))
    jobs = {}
    for prog, l in cc.items():
      for f, args in l:
        jobs.setdefault((f, args), len(jobs))
    def one(item):
      (f, args), n = item
      out = os.path.join(scratch, '%d.json' % n)
      extra = ['-DNDEBUG', '-w', '-fno-color-diagnostics', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
      r = subprocess.run([tool, REPO + '/src/', out, os.path.join(scratch, 'cmake'), '--'] + list(args) + extra + [f],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
      if r.returncode != 0 or not os.path.exists(out):
        raise AnalysisError('extracting %s failed:\n%s' % (f, r.stdout[-3000:]))
      with open(out) as fp:
        return n, json.load(fp)
    with ThreadPoolExecutor(8) as ex:
      res = dict(ex.map(one, jobs.items()))
    return {p: [res[jobs[k]] for k in l] for p, l in cc.items()}
  finally:
    shutil.rmtree(scratch, ignore_errors=True)


def _intern_types(tu, types, tindex):
  """replace TU-local type numbers by the type dict itself"""
  loc = []
  for t in tu['types']:
    key = t['s']
    if key not in tindex:
      tindex[key] = t
    loc.append(tindex[key])
  def conv(n):
    if isinstance(n, list):
      for x in n:
        conv(x)
    elif isinstance(n, dict):
      for k, v in n.items():
        if k in ('t', 'at', 'tt', 'ret'):
          if isinstance(v, int) and not isinstance(v, bool):
            n[k] = loc[v] if v >= 0 else None
        elif k == 'pt':
          n[k] = [loc[x] for x in v]
        elif isinstance(v, (dict, list)):
          conv(v)
  for k in ('functions', 'records', 'enums', 'globals'):
    conv(tu[k])


def build_program(tus):
  types = {}
  prog = {'functions': {}, 'records': {}, 'enums': {}, 'globals': {}, 'tus': []}
  for tui, tu in enumerate(tus):
    _intern_types(tu, None, types)
    prog['tus'].append(tu['main'])
    # make declaration ids unique per TU
    def uniq(n):
      if isinstance(n, list):
        for x in n:
          uniq(x)
      elif isinstance(n, dict):
        for k in ('d', 'hd'):
          if isinstance(n.get(k), int):
            n[k] = (tui, n[k])
        for k, v in n.items():
          if k not in ('t', 'at', 'tt', 'ret', 'pt') and isinstance(v, (dict, list)):
            uniq(v)
    for k in ('functions', 'globals', 'records'):
      uniq(tu[k])
    for f in tu['functions']:
      f['tu'] = tu['main']
      prog['functions'].setdefault(f['id'], f)
    for r in tu['records']:
      prog['records'].setdefault(r['q'], r)
    for e in tu['enums']:
      prog['enums'].setdefault(e['q'] + ('' if e['q'] else str(e['l'])), e)
    for g in tu['globals']:
      prog['globals'].setdefault(g['u'], g)
  prog['types'] = types
  return prog


def load(programs=PROGRAMS):
  os.makedirs(CACHE, exist_ok=True)
  h = tree_hash()
  d = os.path.join(CACHE, 'facts-' + h)
  with open(os.path.join(CACHE, 'lock'), 'w') as lock:
    fcntl.flock(lock, fcntl.LOCK_EX)
    if not os.path.exists(os.path.join(d, 'ok')):
      allp = extract_all()
      if tree_hash() != h:
        raise AnalysisError('source tree changed while it was being analysed')
      old = sorted(glob.glob(os.path.join(CACHE, 'facts-*')), key=os.path.getmtime)
      for o in old[:-6]:
        shutil.rmtree(o, ignore_errors=True)
      shutil.rmtree(d, ignore_errors=True)
      os.makedirs(d)
      import copy
      for p, tus in allp.items():
        tus = pickle.loads(pickle.dumps(tus, -1))
        with open(os.path.join(d, p + '.pickle'), 'wb') as fp:
          pickle.dump(build_program(tus), fp, -1)
      open(os.path.join(d, 'ok'), 'w').close()
  res = {}
  for p in programs:
    with open(os.path.join(d, p + '.pickle'), 'rb') as fp:
      res[p] = pickle.load(fp)
  return res

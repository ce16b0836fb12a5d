"""C10: the daemon never grabs its own virtual devices."""
from .common import *

TECHNIQUE = 'abstract string analysis of device names and unreachability of the grab over the clang AST'
NOTE = 'Names are abstracted as unknown parts and constants; every created device and every grabbing site is covered.'

EVIOCGRAB = 0x40044590
UI_DEV_CREATE, UI_DEV_SETUP = 0x5501, 0x405c5503


def is_gname(req):
  return req & 0xC000FFFF == 0x80004506


def check(ctx):
  P = load('keymapperd')
  ctx.rule('marked', 'every virtual device is created only after its name was set up on the same descriptor; the name is determined as an '
    'abstract string (constants and unknown parts, cut to the size of the name field)')
  ctx.rule('not-grabbed', 'abstract run of the device scan for a device reporting such a name: the grabbing request is unreachable')
  names = {}

  def on_call(I, st, ev):
    if ev.name == 'ioctl' and len(ev.args) >= 2:
      req = I.rv(st, ev.args[1])
      fd = I.rv(st, ev.args[0])
      if isc(req) and req.a[0] == UI_DEV_SETUP:
        l = deref(I.rv(st, ev.args[2]))
        nl = [q for q in (F(l, 'uinput_setup::name'),)]
        v = I.load(st, nl[0])
        st.mon = (fd, v)
        bad = st.copy()
        bad.mon = None
        return [(st, C0), (bad, C(-1))]
      if isc(req) and req.a[0] == UI_DEV_CREATE:
        ok = st.mon is not None and st.mon[0] is fd
        ctx.ob('marked', 'creation in ' + I.P.funcs[ev.node['_f']]['q'], ok, at(I, ev.node), 'a device is created whose name was not set up')
        if ok:
          names.setdefault(st.mon[1], at(I, ev.node))
        st.mon = None
        bad = st.copy()
        return [(st, C0), (bad, C(-1))]
      r = fresh('ioctl')
      I.tr[r] = ((-1, 1 << 30),)
      return [(st, r)]
  # functions composing names keep their outcomes apart
  interest = lambda n: node_calls(n, 'ioctl', 'strncpy') or node_calls(n, 'substr', 'resize', 'append', 'operator+=', 'operator+', 'erase', 'insert', 'replace') and \
    'basic_string' in (callee(n).get('q') or '') + (callee(n).get('cls') or '')
  for root in ('VirtualDevices::create_keyboard_device', 'VirtualDevices::update_forward_devices'):
    fn = method(P, root)
    I = Interp(P, Spec(interest=interest, on_call=on_call, cap=24, retcap=8))
    I.run(fn, None, obj=mk('OBJ', 'VirtualDevices'))
    ctx.used(I)
  sites = creation_sites(P)
  ctx.need('virtual device creation sites', len(sites), 1)
  ctx.need('names of created devices', len(names), 1)
  for i, (nm, where) in enumerate(sorted(names.items(), key=lambda x: x[1])):
    reach = grab_reachable(ctx, P, nm)
    ctx.ob('not-grabbed', 'device created at ' + where.split(' ')[-1].strip('()'), not reach, where,
      'a device named %s is grabbed at %s' % (show(nm), reach[0] if reach else ''))
  # positive example: some other device must be grabbed, else the analysis lost its subject
  ctx.need('grabbing of an ordinary device', len(grab_reachable(ctx, P, mk('s', 'AT Translated Set 2 keyboard'))), 1)


def show(v):
  if v.k == 's':
    return repr(v.a[0])
  if v.k == 'concat':
    return show(v.a[0]) + ' + ' + show(v.a[1])
  if v.k == 'truncated':
    return 'first %s bytes of (%s)' % (v.a[1], show(v.a[0]))
  return '<any>'


def creation_sites(P):
  out = []
  for f in P.funcs.values():
    for n in P.nodes(f):
      if n['k'] == 'Call' and node_calls(n, 'ioctl') and len(n['a']) > 1 and n['a'][1].get('cv') == UI_DEV_CREATE:
        out.append(n)
  return out


def grab_reachable(ctx, P, name):
  found = []

  def on_call(I, st, ev):
    if ev.name == 'ioctl' and len(ev.args) >= 2:
      req = I.rv(st, ev.args[1])
      if isc(req) and is_gname(req.a[0]):
        p = I.rv(st, ev.args[2])
        l = deref(p)
        if l.k == 'E' and l.a[1] is C0:
          l = l.a[0]
        I.kill_under(st, l)
        st.env[l] = name
        return [(st, C(10))]
      if isc(req) and req.a[0] == EVIOCGRAB:
        v = I.rv(st, ev.args[2])
        if I.truth(st, v) is not False:
          found.append(at(I, ev.node))
        return [(st, C0)]
      for a in ev.args[2:]:
        if a.k == 'addr':
          I.havoc(st, a.a[0], 'ioctl')
      r = fresh('ioctl')
      I.tr[r] = ((-1, 1 << 30),)
      return [(st, r)]
    if ev.name in ('open', 'openat'):
      r = fresh('fd')
      I.tr[r] = ((-1, 1 << 20),)
      return [(st, r)]
  for root in ('GrabbedDevices::grab', 'GrabbedDevices::update_devices'):
    fn = method(P, root)
    I = Interp(P, Spec(interest=lambda n: node_calls(n, 'ioctl') and n['k'] == 'Call' and len(n['a']) > 1 and (n['a'][1].get('cv') == EVIOCGRAB or
      is_gname(n['a'][1].get('cv') or 0)), on_call=on_call, cap=8))
    I.run(fn, None, obj=mk('OBJ', 'GrabbedDevices'))
    ctx.used(I)
  return found

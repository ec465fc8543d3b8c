"""C15: the crystal router delivers every message exactly once to its target."""
LEVEL = 'proof'
NOTE = ('For every number of devices, every buffer length, every assignment of targets, every restart stage and every history of overflows, '
        'from the Python source (vf/routevc.py, vf/routedrv.py): (1) the recursion of _crystal_router_loop over the stages, with '
        '_crystal_router_stage inlined, at an arbitrary level with groups known to be intervals that partition the axis, for a generic '
        'item: lost, duplicated, misrouted or truncated items, wrong lengths, wrong permutations and wrong restart stages all break a '
        'named condition; (2) CrystalData.select / __add__ / resize / _pad_to_size against their contracts on arrays of symbolic length; '
        '(3) the driver that grows the buffers (loop cut at an invariant) and crystal_router against the contract of (1): payload, target and '
        'source of the item; (4) _bit_ceil. When a source leaves the reach of these rules, the previous checks stand in, labelled bounded: '
        'jaxpr of the routing loop interpreted with symbolic multisets of item classes per number of devices, callees and driver enumerated. '
        'Leaves are treated one at a time by the code; proofs run with up to four of them, of several ranks.')
TECHNIQUE = ('recursion and loop rules on the Python source: z3 verification conditions over device functions for every axis size and buffer '
             'length, caller checked against callee contracts; callee contracts discharged on arrays of symbolic length')

import functools, itertools
import numpy as np
from vf.core import Failed, Unsupported, locate
from vf import spmd

F = ['_crystal_router_stage', '_crystal_router_loop']
FD = ['CrystalData.select', 'CrystalData.__add__', 'CrystalData.resize', '_pad_to_size']
FR = ['_crystal_router_flat', '_crystal_router_flat.crystal', 'crystal_router_setup', '_bit_ceil']

_P = {}


def prims():
  """opaque callees with the result shapes of the contracts"""
  if _P:
    return _P
  from jax.extend import core as jexc
  for nm in ('vf_select', 'vf_append', 'vf_resize'):
    p = jexc.Primitive(nm)
    p.multiple_results = True
    _P[nm] = p
  import jax.numpy as jnp

  @_P['vf_select'].def_abstract_eval
  def _(n, mask, *data, size, m):
    return [n] + [d.update(shape=(size,) + d.shape[1:]) for d in data]

  @_P['vf_append'].def_abstract_eval
  def _(n1, n2, *data, m):
    return [n1] + list(data[:m])

  @_P['vf_resize'].def_abstract_eval
  def _(n, *data, size, m):
    return [n] + [d.update(shape=(size,) + d.shape[1:]) for d in data]
  return _P


class stubs:
  """CrystalData's methods replaced by opaque callees (their contracts are obligations of their own)."""

  def __enter__(self):
    from swirl_fem.communication import crystal_router as cr
    P = prims()
    C = cr.CrystalData
    self.saved = [(k, C.__dict__[k]) for k in ('select', '__add__', 'resize')]

    def select(self, mask, size):
      o = P['vf_select'].bind(self.n, mask, *self.data, size=int(size), m=len(self.data))
      return C(data=list(o[1:]), n=o[0])

    def add(self, other):
      o = P['vf_append'].bind(self.n, other.n, *self.data, *other.data, m=len(self.data))
      return C(data=list(o[1:]), n=o[0])

    def resize(self, size):
      o = P['vf_resize'].bind(self.n, *self.data, size=int(size), m=len(self.data))
      return C(data=list(o[1:]), n=o[0])
    C.select, C.__add__, C.resize = select, add, resize
    return cr

  def __exit__(self, *a):
    from swirl_fem.communication import crystal_router as cr
    for k, v in self.saved:
      setattr(cr.CrystalData, k, v)
    return False


class Buf:
  """One leaf of a buffer on one device: counts of the item classes (origin, target) in its valid part."""

  def __init__(self, leaf, cnt, size, ok=True):
    self.leaf, self.cnt, self.size, self.ok = leaf, cnt, size, ok


class Num:
  """A dynamic length on one device: the same linear form over the class counts."""

  def __init__(self, cnt):
    self.cnt = cnt


class Pred:
  """A mask on one device: truth for (valid slot?, target); targets of invalid slots are arbitrary (-1..N)."""

  def __init__(self, tab):
    self.tab = tab


class Tgt:
  """the target leaf seen as integers"""


class Max:

  def __init__(self, nums, tag):
    self.nums, self.tag = nums, tag


class Router(spmd.Spmd):

  def __init__(self, n, B, D, overflow):
    super().__init__(n, 'i')
    self.B, self.D, self.overflow = B, D, overflow
    self.stage = 0                # number of pmax'es of new lengths seen
    self.events = []

  def initial(self, leaves):
    out = []
    for k in range(leaves):
      a = np.empty(self.n, object)
      for d in range(self.n):
        c = np.zeros((self.n, self.n), int)
        c[d, :] = 1
        a[d] = Buf(k, c, self.D)
      out.append(a)
    num = np.empty(self.n, object)
    for d in range(self.n):
      num[d] = Num(out[0][d].cnt)
    return out, num

  def obj(self, f):
    a = np.empty(self.n, object)
    for d in range(self.n):
      a[d] = f(d)
    return a

  def prim(self, eqn, args):
    name, p = eqn.primitive.name, eqn.params
    n = self.n
    if name == 'iota':
      if len(p['shape']) != 1:
        raise Unsupported('iota')
      return np.broadcast_to(np.arange(p['shape'][0], dtype=p['dtype']), (n,) + tuple(p['shape']))
    if name == 'vf_select':
      return self.select(args[0], args[1], args[2:], p['size'])
    if name == 'vf_append':
      m = p['m']
      return self.append(args[0], args[1], args[2:2 + m], args[2 + m:])
    if name == 'vf_resize':
      return [args[0]] + [self.obj(lambda d, a=a: Buf(a[d].leaf, a[d].cnt, p['size'], a[d].ok and (p['size'] >= self.B or p['size'] >= a[d].size)))
                          for a in args[1:]]
    sym = [a for a in args if a.dtype == object]
    if not sym or name in ('pjit', 'jit', 'closed_call'):
      if name == 'cond' and args[0].dtype == object:
        raise Unsupported('branch')
      return super().prim(eqn, args)
    if name == 'cond':
      return super().prim(eqn, args)
    if name == 'pmax':
      if all(isinstance(x, Num) for x in args[0]):
        self.stage += 1
        tag = self.stage
        mx = Max(list(args[0]), tag)
        return [self.obj(lambda d: mx)]
      raise Unsupported('pmax of data')
    if name == 'ppermute':
      out = []
      for a in args:
        o = np.empty(n, object)
        perm = {int(d): int(s) for s, d in p['perm']}
        if sorted(perm) != list(range(n)) or sorted(perm.values()) != list(range(n)):
          raise Failed(f'not a permutation: {p["perm"]}')
        for d in range(n):
          o[d] = a[perm[d]]
        out.append(o)
      return out
    if name in ('broadcast_in_dim', 'convert_element_type', 'reshape', 'squeeze', 'copy'):
      return args[0]
    if name in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
      return self.compare(name, *args)
    if name in ('and', 'or', 'xor', 'not'):
      def g(d):
        tabs = []
        for a in args:
          tabs.append(self.table(a[d]))
        return Pred(spmd._NP[name](*tabs))
      return self.obj(g)
    if name == 'select_n':
      w = np.asarray(args[0])
      if w.dtype == object:
        ps = [args[0][d] for d in range(n)]
        cs = [self.obj(lambda d, a=a: a[d] if isinstance(a[d], Pred) else Pred(np.full((2, n + 2), bool(np.asarray(a[d]).ravel()[0]))))
              for a in args[1:]]
        if not all(isinstance(q, Pred) for q in ps):
          raise Unsupported('selection')
        return self.obj(lambda d: Pred(np.where(ps[d].tab, cs[1][d].tab, cs[0][d].tab)))
      w = w.reshape(n, -1)
      if (w != w[:, :1]).any():
        raise Unsupported('slot-wise selection')
      return self.obj(lambda d: args[1 + int(w[d, 0])][d])
    raise Unsupported(f'{name} of symbolic data')

  def table(self, x):
    if isinstance(x, Pred):
      return x.tab
    if isinstance(x, (bool, np.bool_)) or (isinstance(x, np.ndarray) and x.dtype == bool and (x == x.ravel()[0]).all()):
      return np.full((2, self.n + 2), bool(np.asarray(x).ravel()[0]))
    raise Unsupported(f'mask of {type(x).__name__}')

  def compare(self, name, a, b):
    n = self.n
    table = self.table
    flip = dict(lt='gt', gt='lt', le='ge', ge='le', eq='eq', ne='ne')

    def g(d):
      x, y, nm = a[d], b[d], name
      if isinstance(x, Pred) or isinstance(y, Pred):
        t = [table(q) for q in (x, y)]
        if nm not in ('eq', 'ne'):
          raise Unsupported('ordering of masks')
        return Pred(spmd._NP[nm](*t))
      if not isinstance(x, (Buf, Num, Max)):
        x, y, nm = y, x, flip[nm]
      if isinstance(x, Num):
        # slot index against the length
        ar = np.asarray(y)
        if ar.dtype == object or ar.ndim != 1 or not (ar == np.arange(ar.shape[0])).all() or nm not in ('gt', 'le'):
          raise Unsupported('comparison with the dynamic length')
        t = np.zeros((2, n + 2), bool)
        t[1 if nm == 'gt' else 0, :] = True
        return Pred(t)
      if isinstance(x, Max):
        lim = np.asarray(y)
        if lim.dtype == object or int(lim.ravel()[0]) != self.B:
          raise Unsupported('the maximal length is compared with something else than the buffer size')
        if nm not in ('gt', 'le'):
          raise Failed(f'overflow is decided by max {nm} buffer size')
        over = self.over(x)
        return over if nm == 'gt' else (not over)
      if isinstance(x, Buf):
        if x.leaf != 0:
          raise Failed('a payload leaf is used as the target')
        if not x.ok:
          raise Failed('targets read from a truncated buffer')
        c = np.asarray(y)
        if c.dtype == object or (c.ravel() != c.ravel()[0]).any():
          raise Unsupported('target compared with data')
        t = spmd._NP[nm](np.arange(-1, n + 1), int(c.ravel()[0]))
        return Pred(np.stack([t, t]))
      raise Unsupported('comparison')
    o = [g(d) for d in range(n)]
    if all(isinstance(q, (bool, np.bool_)) for q in o):
      return np.array(o, bool)
    return self.obj(lambda d: o[d])

  def over(self, mx):
    key = id(mx)
    over = mx.tag == self.overflow
    if (mx.tag, over) not in self.events:
      self.events.append((mx.tag, over))
    return over

  def same(self, num, bufs, what):
    for d in range(self.n):
      if not isinstance(num[d], Num):
        raise Unsupported('length')
      for a in bufs:
        if not np.array_equal(a[d].cnt, num[d].cnt):
          raise Failed(f'{what}: the length on device {d} of {self.n} does not count the items of its buffer '
                       f'(items {a[d].cnt.tolist()}, length {num[d].cnt.tolist()})')
    for k, a in enumerate(bufs):
      if any(x.leaf != k for x in a):
        raise Failed(f'{what}: leaves exchanged')

  def select(self, num, mask, bufs, size):
    self.same(num, bufs, 'select')
    out = [[] for _ in range(1 + len(bufs))]
    for d in range(self.n):
      m = mask[d]
      if not isinstance(m, Pred):
        raise Unsupported('mask')
      if m.tab[0].any():
        raise Failed(f'items beyond the length of device {d} of {self.n} are selected')
      c = bufs[0][d].cnt * m.tab[1][1:-1].astype(int)[None, :]
      if size < self.D and size < self.B:
        raise Failed('selection may be truncated')
      out[0].append(Num(c))
      for k, a in enumerate(bufs):
        out[1 + k].append(Buf(k, c, size, a[d].ok))
    return [self.obj(lambda d, o=o: o[d]) for o in out]

  def append(self, n1, n2, a, b):
    self.same(n1, a, 'append (first)')
    self.same(n2, b, 'append (second)')
    out = [[] for _ in range(1 + len(a))]
    for d in range(self.n):
      c = a[0][d].cnt + b[0][d].cnt
      # contract: n1 + size2 <= size1; if the stage does not overflow, n1 <= final length <= buffer size
      ok = self.B + b[0][d].size <= a[0][d].size
      if not ok:
        raise Failed(f'append: a buffer of {a[0][d].size} entries cannot be extended by {b[0][d].size} entries when the buffer size is {self.B}')
      out[0].append(Num(c))
      for k in range(len(a)):
        out[1 + k].append(Buf(k, c, a[0][d].size, a[k][d].ok and b[k][d].ok))
    return [self.obj(lambda d, o=o: o[d]) for o in out]


_TR = {}


def loop_name(cr):
  return locate(cr, '_crystal_router_loop', ('crystal_data', 'start_stage', 'axis_name', 'buffer_size'))


def trace(n, B, D, start, leaves):
  import jax, jax.numpy as jnp
  key = (n, B, D, start, leaves)
  S = jax.ShapeDtypeStruct
  shapes = [S((D,), jnp.int32)] + [S((D,) + s, t) for s, t in [((), jnp.float64), ((2, 1), jnp.int8)][:leaves - 1]]
  with stubs() as cr:
    def f(n_, *data):
      out, mx, i = getattr(cr, loop_name(cr))(cr.CrystalData(data=list(data), n=n_), start, axis_name='i', buffer_size=B)
      if not isinstance(out, cr.CrystalData):
        raise Unsupported('result')
      return [out.n] + list(out.data) + [mx, i]
    return jax.make_jaxpr(f, axis_env=[('i', n)])(S((), jnp.int32), *shapes)


def nstages(n):
  k = 0
  while n > 1:
    n, k = (n + 1) // 2, k + 1
  return k


def route(n, B, D, start, overflow, leaves, prior=None):
  """runs the loop from `start`; overflow: ordinal of the stage (counted from start) whose result does not fit, or None"""
  r = Router(n, B, D, None if overflow is None else overflow + 2)     # pmax number 1 is the input's
  bufs, num = prior or r.initial(leaves)
  closed = trace(n, B, D, start, leaves)
  outs = r.run(closed, num, *bufs)
  num2, bufs2, mx, i = outs[0], outs[1:1 + leaves], outs[-2], outs[-1]
  r.same(num2, bufs2, 'result')
  return r, num2, bufs2, mx, i


def delivered(n, B, D, leaves):
  """obligation: without overflow every item class (origin, target) ends on its target, once"""
  r, num, bufs, mx, i = route(n, B, D, 0, None, leaves)
  for d in range(n):
    want = np.zeros((n, n), int)
    want[:, d] = 1
    if not np.array_equal(num[d].cnt, want):
      diff = np.argwhere(num[d].cnt != want)[0]
      raise Failed(f'{n} devices: device {d} ends with {num[d].cnt[tuple(diff)]} copies of the items sent by {diff[0]} to {diff[1]}',
                   model=dict(devices=n, device=d, origin=int(diff[0]), target=int(diff[1])))
    if not all(b[d].ok and b[d].size == B for b in bufs):
      raise Failed('result truncated below the buffer size')
  check_max(r, mx, num)
  return r.stage - 1


def check_max(r, mx, num):
  """the reported maximum is the maximum over the devices of the final lengths"""
  m = mx[0]
  if not isinstance(m, Max) or any(x is not m for x in mx):
    raise Failed('the reported maximal length is not common to the devices')
  if sorted(x.cnt.tobytes() for x in m.nums) != sorted(x.cnt.tobytes() for x in num):
    raise Failed('the reported maximal length is not that of the final lengths', model=dict(devices=r.n))


def resume(n, B, leaves):
  """obligation: overflow in stage k returns the input of stage k and k; resuming there delivers as if it had fitted"""
  S = delivered(n, B, B, leaves)
  for k in range(S):
    r, num, bufs, mx, i = route(n, B, B, 0, k, leaves)
    iv = np.asarray(i)
    if iv.dtype == object or len(set(iv.tolist())) != 1:
      raise Failed('the restart stage differs between devices', model=dict(devices=n, stage=k))
    at = int(iv[0])
    if not isinstance(mx[0], Max) or mx[0].tag != k + 2:
      raise Failed('the required size is not reported on overflow', model=dict(devices=n, stage=k))
    for d in range(n):
      if not all(b[d].ok for b in bufs):
        raise Failed(f'data truncated on overflow in stage {k}', model=dict(devices=n, stage=k))
    B2 = 4 * B
    prior = ([r.obj(lambda d, b=b: Buf(b[d].leaf, b[d].cnt, B2)) for b in bufs], num)
    for k2 in [None] + list(range(S - at))[:1]:
      q, num2, bufs2, mx2, i2 = route(n, B2, B2, at, k2, leaves, prior)
      if k2 is None:
        for d in range(n):
          want = np.zeros((n, n), int)
          want[:, d] = 1
          if not np.array_equal(num2[d].cnt, want):
            raise Failed(f'{n} devices: resuming after overflow in stage {k} at stage {at} loses or duplicates items on device {d}',
                         model=dict(devices=n, stage=k, restart=at))
        check_max(q, mx2, num2)


# ---------------------------------------------------------------- contracts of the callees
def crystal_data_contracts(L):
  """select, append, resize on letters: every mask and length up to L"""
  import jax, jax.numpy as jnp
  from swirl_fem.communication.crystal_router import CrystalData
  count = 0
  for m in range(1, L + 1):
    data = [np.arange(1, m + 1), np.arange(100, 100 + 6 * m).reshape(m, 2, 3).astype(np.int8), np.arange(m) % 2 == 0]
    masks = np.array(list(itertools.product([False, True], repeat=m)))
    for size in sorted({m, m + 1, 2 * m}):
      f = jax.jit(jax.vmap(lambda mask, size=size: (lambda c: (c.n, c.data))(
          CrystalData(data=[jnp.asarray(a) for a in data], n=jnp.int32(m)).select(mask, size))))
      n, out = f(jnp.asarray(masks))
      for q, mask in enumerate(masks):
        k = int(mask.sum())
        count += 1
        if int(n[q]) != k or any(o.shape[1] != size or o.dtype != a.dtype or not np.array_equal(np.asarray(o[q])[:k], a[mask])
                                 for o, a in zip(out, data)):
          raise Failed(f'select {mask.tolist()} to size {size}: {int(n[q])} items {np.asarray(out[0][q]).tolist()}',
                       model=dict(method='select', mask=mask.tolist(), size=size))
    for s2 in range(1, L + 1):
      cases = [(n1, n2) for n1 in range(0, m + 1) for n2 in range(0, s2 + 1) if n1 + s2 <= m]
      if not cases:
        continue
      other = [np.arange(-s2, 0), np.arange(6 * s2).reshape(s2, 2, 3).astype(np.int8), np.arange(s2) % 3 == 0]
      g = jax.jit(jax.vmap(lambda n1, n2: (lambda c: (c.n, c.data))(
          CrystalData([jnp.asarray(a) for a in data], n1) + CrystalData([jnp.asarray(a) for a in other], n2))))
      n, out = g(jnp.asarray([c[0] for c in cases], jnp.int32), jnp.asarray([c[1] for c in cases], jnp.int32))
      for q, (n1, n2) in enumerate(cases):
        count += 1
        if int(n[q]) != n1 + n2 or any(o.shape[1] != m or not np.array_equal(np.asarray(o[q])[:n1 + n2], np.concatenate([a[:n1], b[:n2]]))
                                       for o, a, b in zip(out, data, other)):
          raise Failed(f'append of {n2} (size {s2}) to {n1} (size {m})', model=dict(method='__add__', n1=n1, n2=n2, size1=m, size2=s2))
    for size in range(0, 2 * L + 1):
      c = CrystalData([jnp.asarray(a) for a in data], jnp.int32(min(m, size))).resize(size)
      count += 1
      k = min(m, size)
      if int(c.n) != k or any(o.shape != (size,) + a.shape[1:] or o.dtype != a.dtype or not np.array_equal(np.asarray(o)[:k], a[:k]) for o, a in zip(c.data, data)):
        raise Failed(f'resize from {m} to {size}', model=dict(method='resize', size=m, new=size))
  return f'{count} cases'


def bit_ceil():
  """obligation: the grown buffer is at least as large as required"""
  from swirl_fem.communication.crystal_router import _bit_ceil
  for n in list(range(0, 1 << 13)) + [(1 << k) + e for k in range(13, 30) for e in (-1, 0, 1)] + [1 << 30]:
    b = int(_bit_ceil(n))
    if b < n:
      raise Failed(f'_bit_ceil({n}) = {b}', model=dict(n=n))


def driver(hist, src):
  """obligation: crystal() against the contract of the loop, for one history of required sizes.

  hist: the loop's answers: (required size, restart stage) with required > buffer = overflow; the last one fits."""
  import jax, jax.numpy as jnp
  from swirl_fem.communication import crystal_router as cr
  n, m = 2, 3
  data = np.arange(10, 10 + n * m).reshape(n, m)
  log = []

  class Dev:
    pass
  name = loop_name(cr)
  saved = cr.jit_distributed, getattr(cr, name)

  def stub(*a, **k):
    raise AssertionError
  state = dict(t=0, expect=0, need=0, data=None)

  def loop(crystal_data, i, *, buffer_size, **kw):
    t = state['t']
    state['t'] += 1
    iv = np.asarray(i)
    if iv.shape != (n,) or (iv != state['expect']).any():
      raise Failed(f'the loop is started at stage {iv.tolist()} instead of {state["expect"]}', model=dict(history=hist))
    if any(a.shape[1] > buffer_size for a in crystal_data.data):
      raise Failed(f'data of length {crystal_data.data[0].shape[1]} in a buffer of {buffer_size}', model=dict(history=hist))
    if buffer_size < state['need']:
      raise Failed(f'buffer of {buffer_size} after {state["need"]} was required', model=dict(history=hist))
    if crystal_data.data[0].shape[1] < m:
      raise Failed('input truncated', model=dict(history=hist))
    for d, (a, w) in enumerate(zip(crystal_data.data, state['data'])):
      if not np.array_equal(np.asarray(a)[:, :w.shape[1]], w):
        raise Failed('the data passed to the loop are not those returned by it', model=dict(history=hist))
    grow, stage = hist[min(t, len(hist) - 1)]
    over = t < len(hist) - 1
    need = buffer_size + grow if over else max(0, min(buffer_size, grow))
    # the loop's contract: data of static length buffer_size, max on every device
    out = []
    for a in crystal_data.data:
      b = np.zeros((n, buffer_size) + a.shape[2:], a.dtype)
      b[:, :a.shape[1]] = np.asarray(a)
      b[:, :m] += 1000                  # a new history
      out.append(jnp.asarray(b))
    state['data'] = [np.asarray(b)[:, :buffer_size] for b in out]
    state['need'], state['expect'] = need, stage
    return cr.CrystalData(data=out, n=crystal_data.n), jnp.full((n,), need), jnp.full((n,), stage)

  def jd(f, mesh=None, axis_name=None, **kw):
    g = f
    while isinstance(g, functools.partial):
      g = g.func
    if g is stub:
      return lambda *a, **k: loop(*a, **k)

    def run(*a, **k):
      if not a:
        return jnp.stack([jnp.asarray(f(**k)) for _ in range(n)])
      return jax.vmap(functools.partial(f, **k), axis_name=axis_name)(*a)
    return run
  cr.jit_distributed = jd
  setattr(cr, name, stub)
  try:
    route = cr.crystal_router_setup(None, 'i')
    target = np.array([[1, 0, 1], [0, 0, 1]], np.int32)
    payload = dict(a=jnp.asarray(data), b=[jnp.asarray(data[..., None].astype(np.float32))])
    st = [target, data, data[..., None].astype(np.float32)]
    if src:
      st.append(np.broadcast_to(np.arange(n)[:, None], (n, m)))
    state['data'] = st
    o = route(jnp.asarray([3, 2], jnp.int32), payload, jnp.asarray(target), *([] if src else [False]))
  finally:
    cr.jit_distributed = saved[0]
    setattr(cr, name, saved[1])
  if state['t'] != len(hist):
    raise Failed(f'the loop is called {state["t"]} times for the history {hist}', model=dict(history=hist))
  if len(o) != (3 if src else 2):
    raise Failed('wrong number of results', model=dict(history=hist))
  k = state['need']
  leaves = [o[1]['a'], o[1]['b'][0]] + ([o[2]] if src else [])
  for a, w in zip(leaves, state['data'][1:]):
    if not np.array_equal(np.asarray(a)[:, :k], w[:, :k]) or a.shape[1] < k:
      raise Failed('the result is not what the loop delivered', model=dict(history=hist))
  if np.asarray(o[0]).tolist() != [3, 2]:
    raise Failed('counts changed', model=dict(history=hist))


def prove(chk):
  chk.trust('vf/routevc.py, vf/routedrv.py, vf/scanvc.py, vf/pyvc.py, z3', 'contracts of lax.pshuffle, pmax, axis_index, cond, dynamic_update_slice, concatenate; jnp.where, .at.get, zeros; np.frexp',
            'jit_distributed (C18)')
  chk.assume('targets lie in 0..devices-1 and counts do not exceed the static length (documented preconditions)', 'fewer than 2^30 items per device',
             'growing the buffer ends: every length is a number of items, and the buffer grows strictly (proved)', 'buffer sizes are exact in float64 (frexp)')
  top = chk.n(24, 48)
  more = chk.n([31, 32, 33, 64], [63, 64, 65, 96, 127, 128])
  from vf import routevc, routedrv
  rt, L = chk.n(9, 20), chk.n(5, 7)

  def bounded_routing():
    for n in list(range(1, top + 1)) + more:
      delivered(n, 64, 64, 3 if n < 8 else 2)
    for n in (2, 3, 5, 6):
      for b, d in ((7, 7), (8, 3), (16, 1)):
        delivered(n, b, d, 2)
    for n in range(2, rt + 1):
      resume(n, 16, 2)
  chk.oblige('routing: every item reaches its target once, or its group at the stage to resume from, for every number of devices',
             routevc.loop_contract, 'recursion rule, z3', F,
             stand_in=(f'1..{top} and {more} devices; overflow at every stage up to {rt} devices', bounded_routing))
  enum = functools.lru_cache(None)(lambda: crystal_data_contracts(L))
  bound = f'lengths up to {L}, all masks'
  chk.oblige('prefix counts of a mask', routedrv.counting, 'z3')
  chk.oblige('select keeps the selected entries, for every mask and length', routedrv.select_contract, 'symbolic lengths, z3', FD[:1], stand_in=(bound, enum))
  chk.oblige('append joins the valid entries, for every length', routedrv.append_contract, 'symbolic lengths, z3', FD[1:2], stand_in=(bound, enum))
  chk.oblige('resize keeps the entries, for every length', routedrv.resize_contract, 'symbolic lengths, z3', FD[2:], stand_in=(bound, enum))
  chk.oblige('buffer growth reaches the required size', routedrv.bit_ceil_contract, 'symbolic lengths, z3', FR[3:],
             stand_in=('0..8191 and powers of two +-1 up to 2^30', bit_ceil))

  def drv():
    k = 0
    stages = [(0, 0), (0, 2), (1, 1), (1, 3)]
    for src in (True, False):
      for last in (0, 1, 3, 99):
        driver([(last, 0)], src)
        for grow in (1, 3, 4, 50):
          driver([(grow, 1), (last, 2)], src)
          for g2 in (1, 9):
            driver([(grow, 0), (g2, 2), (last, 2)], src)
            k += 1
    return f'{k} histories'
  chk.oblige('driver: resumes with grown buffers until everything fits, for every history', routedrv.driver_contract, 'loop rule, z3', FR,
             stand_in=('histories of up to 3 calls', drv))

  def refuted(f):
    def g():
      try:
        f()
      except Unsupported as e:
        if 'not inductive' in str(e):
          raise Failed(str(e))
        raise
    return g
  chk.canary('items one device off are refuted', refuted(lambda: routevc.loop_contract(True)), 'recursion rule, z3')
  chk.canary('items one device off are refuted in the driver', refuted(lambda: routedrv.driver_contract(True)), 'loop rule, z3')
  chk.canary('append without room for the padding is refuted', lambda: routedrv.append_contract(True), 'symbolic lengths, z3')
  chk.canary('growth beyond the size asked for is refuted', lambda: routedrv.bit_ceil_contract(True), 'symbolic lengths, z3')

  def c1():
    r = Router(3, 8, 8, None)
    b, num = r.initial(2)
    b[1][0] = Buf(1, b[1][0].cnt * 0, 8)
    r.same(num, b, 'x')
  chk.canary('a lost item is seen', c1, 'symbolic multisets')


def contracts(chk):
  import jax, jax.numpy as jnp
  from jax import sharding
  from swirl_fem.communication.crystal_router import crystal_router_setup
  rng = np.random.RandomState(chk.seed)
  plan = chk.n([(1, 3), (2, 2), (3, 3), (5, 2), (6, 3)], [(k, m) for k in range(1, 9) for m in (0, 1, 2, 3, 5)])
  for N, m in plan:
    mesh = sharding.Mesh(np.array(jax.devices()[:N]), ('i',))
    cr = crystal_router_setup(mesh, 'i')
    for style in ('all to one', 'random', 'shift'):
      n = rng.randint(0, m + 1, N).astype(np.int32)
      target = rng.randint(0, N, (N, m)).astype(np.int32)
      if style == 'all to one':
        target[:] = rng.randint(N)
        n[:] = m
      if style == 'shift':
        target[:] = (np.arange(N)[:, None] + 1) % N
      ident = np.arange(N * m).reshape(N, m)
      data = dict(a=ident.astype(np.float64), b=(np.stack([ident, ident + 7], -1).astype(np.int32),))
      target = np.where(np.arange(m) < n[:, None], target, rng.choice([-1, 0, N - 1]))

      def run(N=N, m=m, n=n, target=target, data=data, ident=ident, cr=cr):
        no, out, src = cr(jnp.asarray(n), jax.tree_util.tree_map(jnp.asarray, data), jnp.asarray(target))
        no, src = np.asarray(no), np.asarray(src)
        valid = np.arange(m) < n[:, None]
        for d in range(N):
          want = sorted(ident[valid & (target == d)].tolist())
          k = int(no[d])
          if k > out['a'].shape[1]:
            return f'device {d} reports {k} items in a buffer of {out["a"].shape[1]}'
          got = np.asarray(out['a'])[d, :k]
          if sorted(got.tolist()) != want:
            return f'device {d} holds {sorted(got.tolist())} instead of {want}'
          if not np.array_equal(np.asarray(out['b'][0])[d, :k], np.stack([got, got + 7], -1)):
            return f'leaves of an item are separated on device {d}'
          if not np.array_equal(src[d, :k], got.astype(int) // max(m, 1)):
            return f'sources {src[d, :k].tolist()} of {got.tolist()} on device {d}'
      chk.case('routing', run, dict(devices=N, style=style, n=n, target=target))
  # more items than narrow counters can hold
  N, m = 2, chk.n(33000, 70000)
  mesh = sharding.Mesh(np.array(jax.devices()[:N]), ('i',))
  cr2 = crystal_router_setup(mesh, 'i')

  def many():
    n = np.array([m, 200], np.int32)
    target = np.stack([np.ones(m, np.int32), np.zeros(m, np.int32)])
    ident = np.arange(N * m).reshape(N, m)
    no, out, src = cr2(jnp.asarray(n), jnp.asarray(ident), jnp.asarray(target))
    for d in range(N):
      k = int(np.asarray(no)[d])
      if k != n[1 - d]:
        return f'device {d} reports {k} items instead of {n[1 - d]}'
      got = np.sort(np.asarray(out)[d, :k])
      if not np.array_equal(got, ident[1 - d, :k]):
        return f'device {d} holds other items than the {k} sent to it'
      if not (np.asarray(src)[d, :k] == 1 - d).all():
        return f'sources on device {d}'
  chk.case('routing of many items', many, dict(devices=N, items=m))
  # there and back again
  N, m = 4, 3
  mesh = sharding.Mesh(np.array(jax.devices()[:N]), ('i',))
  cr = crystal_router_setup(mesh, 'i')

  def back():
    n = rng.randint(0, m + 1, N).astype(np.int32)
    target = rng.randint(0, 2, (N, m)).astype(np.int32)
    x = np.arange(N * m).reshape(N, m)
    no, o, s = cr(jnp.asarray(n), jnp.asarray(x), jnp.asarray(target))
    n2, o2, s2 = cr(no, o, s)
    for d in range(N):
      a = sorted(zip(x[d, :n[d]].tolist(), target[d, :n[d]].tolist()))
      b = sorted(zip(np.asarray(o2)[d, :int(n2[d])].tolist(), np.asarray(s2)[d, :int(n2[d])].tolist()))
      if a != b:
        return f'device {d}: {b} instead of {a}'
    n3, o3 = cr(jnp.asarray(n), jnp.asarray(x), jnp.asarray(target), return_source=False)
    if np.asarray(n3).tolist() != np.asarray(no).tolist():
      return 'counts depend on return_source'
  chk.case('there and back', back, dict(devices=N))

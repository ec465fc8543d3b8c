"""The parts of the crystal router around its loop, for every length, from their Python source.

Callees: CrystalData.select, __add__, resize, _pad_to_size run on arrays of symbolic length (a length and a function of the
slot); jnp / lax calls are represented by their contracts (where with size and fill_value, reads that drop what is out of
range, dynamic_update_slice with its clamped start, concatenate, zeros, slices). Postconditions at an arbitrary slot.
Driver: crystal (returned by _crystal_router_flat) and crystal_router, for a generic item as in vf/routevc.py, against the
contract of the loop proved there; the `while` of the driver is cut at an invariant:
  the item is on one device in the group of its target at the stage reached, which is 0 or still has groups to split; every
  leaf has the static length of the buffer, its valid entries intact and the values it started with
  variant: the buffer grows (and the number of items bounds what can be asked for)
Buffer sizes: the source of _bit_ceil with the contract of frexp (x = m 2^e, 1/2 <= m < 1, for integers exact in float64).
"""
import contextlib
import inspect
import itertools
import numpy as np
import z3
from vf.core import Failed, Unsupported, locate
from vf import pyvc, scanvc, routevc
from vf.scanvc import SIZE, BF, NF, const
from vf.routevc import T

I = z3.IntSort()
P2 = z3.Function('pow2', I, I)


def fresh(nm):
  return z3.Int(f'{nm}!{next(scanvc._c)}')


def ufun(nm, sort=None):
  f = z3.Function(f'{nm}!{next(scanvc._c)}', I, sort or I)
  return lambda j: f(j)


class Len(pyvc.Z):
  """a dynamic length"""
  __slots__ = ()
  dtype = np.dtype('int32')
  shape = ()
  ndim = 0

  def astype(self, t):
    return self


def num(x, what='number'):
  e = const(x)
  if e is None or not z3.is_int(e):
    raise Unsupported(what)
  return e


# ---------------------------------------------------------------- arrays of symbolic length
class Arr:
  """first axis of symbolic length; f: slot -> value (a letter for each entry with its trailing axes)"""
  __array_priority__ = 1000

  def __init__(self, size, f, rest=(), dtype=np.dtype('float64')):
    self.size_, self.f, self.rest, self.dtype = size, f, rest, dtype

  def __hash__(self):
    return id(self)

  @property
  def shape(self):
    return (pyvc.Z(self.size_),) + self.rest

  @property
  def ndim(self):
    return 1 + len(self.rest)

  def __len__(self):
    raise Unsupported('len of a symbolic array')

  def __array__(self, *a, **k):
    raise Unsupported('data as an array')

  @property
  def at(self):
    return At(self)

  def __getitem__(self, k):
    if isinstance(k, tuple):
      if len(k) < 1 or any(x is not Ellipsis and x != slice(None) for x in k[1:]):
        raise Unsupported('index')
      k = k[0]
    if isinstance(k, slice):
      lo = num(0 if k.start is None else k.start)
      hi = num(pyvc.Z(self.size_) if k.stop is None else k.stop)
      if k.step not in (None, 1) or not pyvc.CTX.valid(z3.And(lo >= 0, hi >= 0)):
        raise Unsupported('slice')
      hi = z3.If(hi < self.size_, hi, self.size_)
      return Arr(z3.If(hi > lo, hi - lo, z3.IntVal(0)), lambda j: self.f(j + lo), self.rest, self.dtype)
    if isinstance(k, Idx):
      return gather(self, k)
    raise Unsupported('index')


class At:

  def __init__(self, a, idx=None):
    self.a, self.idx = a, idx

  def __getitem__(self, k):
    return At(self.a, k)

  def get(self, mode=None, fill_value=None, **k):
    if not isinstance(self.idx, Idx):
      raise Unsupported('read')
    return gather(self.a, self.idx)

  def set(self, v, mode=None, **k):
    raise Unsupported('write')


class Idx(Arr):
  """positions"""


class Slots:
  """a mask over slots"""
  __array_priority__ = 1000
  dtype = np.dtype(bool)
  ndim = 1

  def __init__(self, size, m):
    self.size_, self.m = size, m
    self.count = ufun('count')           # count(i): true entries before i

  def __hash__(self):
    return id(self)

  @property
  def shape(self):
    return (pyvc.Z(self.size_),)

  def sum(self, axis=None, dtype=None):
    if axis not in (None, 0, -1):
      raise Unsupported('axis')
    return Len(self.count(self.size_))

  def nonzero(self, size, fill):
    size, fill = num(size), num(0 if fill is None else fill)
    idx = ufun('position')
    n = self.count(self.size_)

    def fact(j):
      i = idx(j)
      return z3.Implies(z3.And(j >= 0, j < size), z3.If(
          j < n, z3.And(i >= 0, i < self.size_, self.m(i), self.count(i) == j), i == fill))
    pyvc.CTX.positions.append((idx, fact))
    return Idx(size, idx, (), np.dtype('int32'))

  def lemma(self, i, k):
    """prefix counts are strictly increasing over true entries (induction, see `counting`)"""
    c = self.count
    ok = lambda x: z3.And(x >= 0, x < self.size_)
    n = c(self.size_)
    return z3.And(n >= 0, n <= self.size_, *[z3.Implies(z3.And(ok(a), self.m(a)), z3.And(c(a) >= 0, c(a) + 1 <= n)) for a in (i, k)],
                  *[z3.Implies(z3.And(ok(a), ok(b), a < b, self.m(a)), c(a) + 1 <= c(b)) for a, b in ((i, k), (k, i))])


def gather(a, idx):
  out = ufun('out_of_range')
  return Arr(idx.size_, lambda j: z3.If(z3.And(idx.f(j) >= 0, idx.f(j) < a.size_), a.f(idx.f(j)), out(j)), a.rest, a.dtype)


class Np:
  def __init__(self, real):
    self.real = real

  def __getattr__(self, nm):
    v = getattr(self.real, nm)
    if isinstance(v, type) or not callable(v) or isinstance(v, np.dtype):
      return v

    def f(*a, **k):
      raise Unsupported(f'{nm} on a symbolic array')
    return f

  def sum(self, x, axis=None, dtype=None):
    if not isinstance(x, Slots):
      raise Unsupported('sum')
    return x.sum(axis)

  def count_nonzero(self, x, axis=None):
    return self.sum(x, axis)

  def where(self, c, *a, size=None, fill_value=None):
    if a or not isinstance(c, Slots) or size is None:
      raise Unsupported('where')
    return (c.nonzero(size, fill_value),)

  def nonzero(self, c, size=None, fill_value=None):
    return self.where(c, size=size, fill_value=fill_value)

  def flatnonzero(self, c, size=None, fill_value=None):
    return self.where(c, size=size, fill_value=fill_value)[0]

  def asarray(self, x, *a, **k):
    return x

  array = asarray

  def take(self, a, idx, axis=None, mode=None, fill_value=None):
    if not isinstance(a, Arr) or not isinstance(idx, Idx) or axis not in (0,) and a.ndim > 1:
      raise Unsupported('take')
    return gather(a, idx)

  def zeros(self, shape, dtype=None):
    return self.full(shape, 0, dtype)

  def ones(self, shape, dtype=None):
    return self.full(shape, 1, dtype)

  def empty(self, shape, dtype=None):
    z = ufun('arbitrary')
    a = self.full(shape, 0, dtype)
    return Arr(a.size_, z, a.rest, a.dtype)

  def full(self, shape, value, dtype=None):
    shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
    v = z3.IntVal(int(value))
    return Arr(num(shape[0]), lambda j: v, tuple(shape[1:]), np.dtype(dtype) if dtype is not None else None)

  def zeros_like(self, a, shape=None, dtype=None):
    return self.full(shape or a.shape, 0, dtype or a.dtype)

  def concatenate(self, xs, axis=0):
    xs = list(xs)
    if axis != 0 or not all(isinstance(x, Arr) for x in xs):
      raise Unsupported('concatenate')
    r = xs[0]
    for y in xs[1:]:
      if y.rest != r.rest or y.dtype != r.dtype:
        raise Failed(f'arrays of trailing shape {r.rest} and {y.rest}, types {r.dtype} and {y.dtype} are concatenated')
      r = Arr(r.size_ + y.size_, lambda j, r=r, y=y: z3.If(j < r.size_, r.f(j), y.f(j - r.size_)), r.rest, r.dtype)
    return r

  def pad(self, a, widths, mode='constant', constant_values=0):
    if mode != 'constant' or not isinstance(a, Arr):
      raise Unsupported('pad')
    w = [tuple(x) for x in widths] if isinstance(widths[0], (tuple, list)) else [tuple(widths)] * a.ndim
    if len(w) != a.ndim or any(not (x == 0) for q in w[1:] for x in q if not isinstance(x, pyvc.Z)) or any(isinstance(x, pyvc.Z) for q in w[1:] for x in q):
      raise Unsupported('pad')
    lo, hi = num(w[0][0]), num(w[0][1])
    if not pyvc.CTX.valid(z3.And(lo >= 0, hi >= 0)):
      raise Unsupported('pad by a negative number')
    return Arr(a.size_ + lo + hi, lambda j: z3.If(z3.And(j >= lo, j < lo + a.size_), a.f(j - lo), z3.IntVal(0)), a.rest, a.dtype)


class Lax(Np):
  def concatenate(self, xs, dimension):
    return Np.concatenate(self, xs, dimension)

  def dynamic_update_slice_in_dim(self, a, b, start, axis=0):
    if axis not in (0,) or not isinstance(a, Arr) or not isinstance(b, Arr):
      raise Unsupported('dynamic_update_slice')
    if a.rest != b.rest or a.dtype != b.dtype:
      raise Failed('arrays of different trailing shape or type are joined')
    s = num(start)
    pyvc.CTX.require(b.size_ <= a.size_, 'an update longer than the array')
    s = z3.If(s < 0, s + a.size_, s)                 # negative starts count from the end
    top = a.size_ - b.size_
    s = z3.If(s > top, top, z3.If(s < 0, z3.IntVal(0), s))
    return Arr(a.size_, lambda j: z3.If(z3.And(j >= s, j < s + b.size_), b.f(j - s), a.f(j)), a.rest, a.dtype)

  def dynamic_update_slice(self, a, b, starts):
    starts = list(starts)
    if len(starts) != a.ndim or any(isinstance(x, pyvc.Z) or x != 0 for x in starts[1:]):
      raise Unsupported('dynamic_update_slice')
    return self.dynamic_update_slice_in_dim(a, b, starts[0], 0)

  def dynamic_slice_in_dim(self, a, start, size, axis=0):
    s, n = num(start), num(size)
    if axis != 0 or not isinstance(a, Arr):
      raise Unsupported('dynamic_slice')
    pyvc.CTX.require(z3.And(n >= 0, n <= a.size_), 'a slice longer than the array')
    top = a.size_ - n
    s = z3.If(s < 0, s + a.size_, s)
    s = z3.If(s > top, top, z3.If(s < 0, z3.IntVal(0), s))
    return Arr(n, lambda j: a.f(j + s), a.rest, a.dtype)

  slice_in_dim = None

  def pad(self, *a, **k):
    raise Unsupported('lax.pad')


@contextlib.contextmanager
def arrays():
  """jnp, np, lax of the module on arrays of symbolic length"""
  import jax.numpy as jnp
  from jax import lax
  from swirl_fem.communication import crystal_router as mod
  saved = []

  def put(n, v):
    saved.append((n, mod.__dict__.get(n, saved)))
    setattr(mod, n, v)
  try:
    for n, v in list(vars(mod).items()):
      if v is jnp:
        put(n, Np(jnp))
      elif v is np:
        put(n, Np(np))
      elif v is lax:
        put(n, Lax(lax))
    put('int', lambda x=0, *a: x if isinstance(x, pyvc.Z) else int(x, *a))
    put('min', lambda *a: zpick(min, *a))
    put('max', lambda *a: zpick(max, *a))
    yield mod
  finally:
    for n, v in reversed(saved):
      if v is saved:
        delattr(mod, n)
      else:
        setattr(mod, n, v)


def zpick(real, *a):
  if len(a) == 2 and any(isinstance(x, pyvc.Z) for x in a):
    x, y = num(a[0]), num(a[1])
    return pyvc.Z(z3.If(x < y if real is min else x > y, x, y))
  return real(*a)


KINDS = [[((), 'int32')], [((), 'int32'), ((2, 3), 'int8')], [((), 'int32'), ((), 'bool'), ((4,), 'float64'), ((), 'int32')]]


def leaves(kind, size):
  return [Arr(size, ufun(f'leaf{k}'), r, np.dtype(t)) for k, (r, t) in enumerate(kind)]


def each_kind(body):
  """runs `body(mod, kind, prove)` on every path for every list of leaves"""
  n = [0, 0]

  def prove(goal, facts, what):
    n[0] += 1
    c = pyvc.CTX
    s = c.solver()
    s.add(*facts)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.sat:
      raise Failed(what, model={str(d): str(s.model()[d]) for d in s.model().decls()[:12]})
    if r != z3.unsat:
      raise Unsupported(f'z3 unknown: {what}')
  for kind in KINDS:
    def run(ctx):
      scanvc._c = itertools.count()
      ctx.positions = []
      with arrays() as mod:
        body(mod, kind, prove)
    n[1] += pyvc.explore(run, limit=50)
  return f'{n[0]} verification conditions on {n[1]} paths'


def same_form(out, ins, size, prove, what):
  if len(out) != len(ins):
    raise Failed(f'{what}: {len(out)} leaves of {len(ins)}')
  for o, a in zip(out, ins):
    if not isinstance(o, Arr):
      raise Unsupported(f'{what}: {type(o).__name__}')
    if o.rest != a.rest or o.dtype != a.dtype:
      raise Failed(f'{what}: a leaf of trailing shape {a.rest} type {a.dtype} becomes {o.rest} {o.dtype}')
    prove(o.size_ == size, [], f'{what}: static length')


def select_contract():
  """select(mask, size): the count of the mask, and the selected entries in order, whenever size suffices"""
  def body(mod, kind, prove):
    c = pyvc.CTX
    m, size, n = z3.Int('length'), z3.Int('size'), z3.Int('n')
    c.assume(z3.And(m >= 0, size >= 0, n >= 0, n <= m))
    data = leaves(kind, m)
    mf = z3.Function('mask', I, z3.BoolSort())
    mask = Slots(m, lambda i: mf(i))
    out = mod.CrystalData(data=data, n=Len(n)).select(mask, pyvc.Z(size))
    prove(num(out.n) == mask.count(m), [], 'select: the length is the number of selected entries')
    same_form(out.data, data, size, prove, 'select')
    i = z3.Int('i')
    j = mask.count(i)
    facts = [f(j) for _, f in c.positions] + [mask.lemma(i, p(j)) for p, _ in c.positions] + [mask.lemma(i, i)]
    pre = [i >= 0, i < m, mf(i), j < size]
    for k, (o, a) in enumerate(zip(out.data, data)):
      prove(o.f(j) == a.f(i), facts + pre, f'select: entry {k} of the result is the selected one')
  return each_kind(body)


def append_contract(wrong=False):
  """a + b: the valid entries of a, then those of b, whenever the static length of b fits behind those of a"""
  def body(mod, kind, prove):
    c = pyvc.CTX
    s1, s2, n1, n2 = z3.Ints('size1 size2 n1 n2')
    c.assume(z3.And(n1 >= 0, n2 >= 0, n2 <= s2, n1 + s2 <= s1) if not wrong else z3.And(n1 >= 0, n2 >= 0, n2 <= s2, n1 <= s1, n1 + n2 <= s1, s2 <= s1))
    a, b = leaves(kind, s1), leaves(kind, s2)
    out = mod.CrystalData(data=a, n=Len(n1)) + mod.CrystalData(data=b, n=Len(n2))
    prove(num(out.n) == n1 + n2, [], 'append: the lengths add up')
    same_form(out.data, a, s1, prove, 'append')
    j = z3.Int('j')
    for o, x, y in zip(out.data, a, b):
      prove(o.f(j) == z3.If(j < n1, x.f(j), y.f(j - n1)), [j >= 0, j < n1 + n2], 'append: entries of the first, then of the second')
  return each_kind(body)


def resize_contract():
  """resize(size): same length and entries, as far as they fit"""
  def body(mod, kind, prove):
    c = pyvc.CTX
    m, size, n = z3.Ints('length size n')
    c.assume(z3.And(m >= 0, size >= 0, n >= 0, n <= m))
    data = leaves(kind, m)
    out = mod.CrystalData(data=data, n=Len(n)).resize(pyvc.Z(size))
    prove(num(out.n) == n, [], 'resize: the length is kept')
    same_form(out.data, data, size, prove, 'resize')
    j = z3.Int('j')
    for o, x in zip(out.data, data):
      prove(o.f(j) == x.f(j), [j >= 0, j < m, j < size], 'resize: the entries are kept')
  return each_kind(body)


def counting():
  """the lemma on prefix counts: base and step of the induction"""
  c = z3.Function('c', I, I)
  m = z3.Function('m', I, z3.BoolSort())
  i, k = z3.Ints('i k')
  step = c(k + 1) == c(k) + z3.If(m(k), 1, 0)
  first = c(i + 1) == c(i) + z3.If(m(i), 1, 0)
  for facts, goal in (([first, m(i)], c(i) + 1 <= c(i + 1)), ([step, c(i) + 1 <= c(k)], c(i) + 1 <= c(k + 1)),
                      ([step, c(k) >= 0, c(k) <= k], z3.And(c(k + 1) >= 0, c(k + 1) <= k + 1))):
    s = z3.Solver()
    s.add(*facts)
    s.add(z3.Not(goal))
    if s.check() != z3.unsat:
      raise Failed('prefix counts')
  return '3 verification conditions'


# ---------------------------------------------------------------- buffer sizes
class Exp:
  """an exponent e, known by 2^e"""

  def __init__(self, e):
    self.e = e

  def __rlshift__(self, one):
    if isinstance(one, (int, np.integer)) and one >= 0:
      return pyvc.Z(int(one) * P2(self.e))
    return NotImplemented

  def __rpow__(self, two):
    if isinstance(two, (int, np.integer)) and two == 2:
      return pyvc.Z(P2(self.e))
    return NotImplemented

  def __int__(self):
    raise Unsupported('a symbolic exponent')


def exponent(x):
  """least e with x < 2^e, for integers x >= 0"""
  x = num(x)
  if not pyvc.CTX.valid(x >= 0):
    raise Unsupported('exponent of a negative number')
  e = fresh('exponent')
  pyvc.CTX.assume(z3.And(e >= 0, x < P2(e), P2(e) >= 1, z3.Implies(x > 0, P2(e) <= 2 * x), z3.Implies(x == 0, P2(e) == 1)))
  return Exp(e)


class Host:
  """np on symbolic integers"""

  def __init__(self, real):
    self.real = real

  def __getattr__(self, nm):
    v = getattr(self.real, nm)

    def f(*a, **k):
      if any(isinstance(x, (pyvc.Z, pyvc.B, Exp, GInt, Leaf)) for x in a):
        raise Unsupported(nm)
      return v(*a, **k)
    return v if isinstance(v, type) or not callable(v) else f

  def frexp(self, x):
    return (None, exponent(x)) if isinstance(x, pyvc.Z) else np.frexp(x)

  def maximum(self, a, b):
    return zpick(max, a, b)

  def minimum(self, a, b):
    return zpick(min, a, b)

  def max(self, x, *a, **k):
    if isinstance(x, GInt):
      return x.max()
    return np.max(x, *a, **k)


def pyint(x=0, *a):
  return x if isinstance(x, (pyvc.Z, Exp)) else int(x, *a)


class AnyState(pyvc.Loops):
  """loops of integers cut with no invariant: after the loop only its exit condition is known"""

  def entry(self, k, it, loc, names):
    out = {}
    for x in names:
      if x in loc:
        if not isinstance(loc[x], (int, np.integer, pyvc.Z)):
          raise Unsupported(f'{x} in a loop')
        out[x] = pyvc.Z(fresh(x))
    return out

  def exit(self, k, it, loc, names):
    return {x: pyvc.Z(fresh(x)) for x in names if x in loc}

  def element(self, k, it):
    if it is None:
      return None
    if isinstance(it, range):
      return pyvc.Z(fresh('element'))
    raise Unsupported('loop over something else than a range')

  def step(self, k, loc):
    pass


def bit_ceil_of(mod):
  return locate(mod, '_bit_ceil', ('n',))


def grown(real):
  """contract of _bit_ceil (bit_ceil_contract)"""
  def f(n):
    if not isinstance(n, pyvc.Z):
      return real(n)
    if not pyvc.CTX.valid(num(n) >= 0):
      raise Unsupported('buffer size of a negative number')
    r = fresh('size')
    pyvc.CTX.assume(r >= num(n))
    return pyvc.Z(r)
  return f


def bit_ceil_contract(wrong=False):
  """the size of a grown buffer is at least what was asked for"""
  from swirl_fem.communication import crystal_router as cr
  n = [0]

  def run(ctx):
    scanvc._c = itertools.count()
    x = z3.Int('n')
    ctx.assume(x >= 0)
    with host() as mod:
      f = getattr(mod, bit_ceil_of(mod))
      r = pyvc.instrument(f, AnyState(), patch={n: v for n, v in vars(mod).items() if n in ('np', 'int', 'max', 'min')})(pyvc.Z(x))
    ctx.require(num(r) > x if wrong else num(r) >= x, 'the buffer is smaller than required')
    n[0] += 1
  p = pyvc.explore(run, limit=20)
  if not n[0]:
    raise Unsupported('no result')
  return f'{n[0]} verification conditions on {p} paths'


# ---------------------------------------------------------------- the driver
class Leaf:
  """A leaf of a CrystalData in the driver: what it says about the item on every device. glob: seen with the device axis."""
  __array_priority__ = 1000

  def __init__(self, name, cnt, size, ok, val, length, glob, dtype=None):
    self.name, self.cnt, self.size_, self.ok, self.val, self.length, self.glob, self.dtype = name, cnt, size, ok, val, length, glob, dtype

  def __hash__(self):
    return id(self)

  def __array__(self, *a, **k):
    raise Unsupported('data as an array')

  @property
  def shape(self):
    return ((pyvc.Z(SIZE),) if self.glob else ()) + (pyvc.Z(self.size_), 'rest')

  def view(self, glob):
    return Leaf(self.name, self.cnt, self.size_, self.ok, self.val, self.length, glob, self.dtype)

  def resized(self, size):
    return Leaf(self.name, self.cnt, size, lambda d: z3.And(self.ok(d), z3.Or(size >= self.size_, self.length(d) <= size)),
                self.val, self.length, self.glob, self.dtype)

  def __getitem__(self, k):
    k = k if isinstance(k, tuple) else (k,)
    if Ellipsis in k:
      raise Unsupported('index')
    if self.glob:
      if len(k) != 2 or k[0] != slice(None):
        raise Unsupported('index')
      k = k[1:]
    if len(k) != 1 or not isinstance(k[0], slice) or k[0].start not in (None, 0) or k[0].step not in (None, 1):
      raise Unsupported('index')
    if k[0].stop is None:
      return self
    s = num(k[0].stop)
    if not pyvc.CTX.valid(z3.Implies(z3.And(*[g(z3.IntVal(0)) for g in pyvc.CTX.known], SIZE >= 1), s >= 0)):
      raise Unsupported('a slice that may end before its start')
    return self.resized(z3.If(s < self.size_, s, self.size_))

  @property
  def at(self):
    leaf = self

    class W:
      def __init__(s, k=None):
        s.k = k

      def __getitem__(s, k):
        return W(k)

      def set(s, v, **kw):
        if s.k not in (slice(None), Ellipsis) or leaf.glob:
          raise Unsupported('write')
        return leaf.filled(v)
    return W()

  def filled(self, v):
    if not isinstance(v, scanvc.Dev) or v.kind != 'local':
      raise Unsupported('fill')
    # an int32 array stays one: device numbers are exact
    return Leaf('index', self.cnt, self.size_, lambda d: z3.BoolVal(True), lambda d: scanvc.intish(v.f(d)), self.length, self.glob, self.dtype)


class GNum:
  """the length"""

  def __init__(self, length, cnt):
    self.len, self.cnt, self.dtype = length, cnt, np.dtype('int32')

  def __hash__(self):
    return id(self)


class GInt:
  """the same number on every device, as an array over the devices"""

  def __init__(self, e):
    self.e = e

  def __getitem__(self, k):
    if isinstance(k, (int, np.integer)) and k in (0, -1):
      return pyvc.Z(self.e)
    raise Unsupported('index of a value on the axis')

  def __hash__(self):
    return id(self)

  def max(self):
    return pyvc.Z(self.e)
  min = max


class Driver(pyvc.Loops):

  def __init__(self, wrong=False):
    super().__init__()
    self.nobl, self.wrong, self.memo = 0, wrong, {}

  def prove(self, goal, facts, what):
    self.nobl += 1
    s = pyvc.CTX.solver()
    s.add(*facts)
    s.add(z3.Not(goal))
    r = s.check()
    if r != z3.unsat:
      raise Unsupported(f'not inductive: {what}' if r == z3.sat else f'z3 unknown: {what}')

  def facts(self, *ds):
    fs = [SIZE >= 1]
    for d in ds + (z3.IntVal(0),):
      fs += [z3.Implies(z3.And(d >= 0, d < SIZE), g(d)) for g in pyvc.CTX.known]
    return fs

  def state(self, cd, stage, size, where):
    """(holder, facts) of a CrystalData in the loop's precondition"""
    c = pyvc.CTX
    if not isinstance(cd.n, GNum) or not all(isinstance(x, Leaf) for x in cd.data) or not cd.data:
      raise Unsupported(f'{where}: data')
    d, w = fresh('d'), c.holder
    ok = [d >= 0, d < SIZE]
    fs = self.facts(d, w)
    if cd.data[0].name != 'target':
      raise Failed(f'{where}: the targets are not the first leaf')
    for x in cd.data:
      self.prove(z3.And(x.cnt(d) == z3.If(d == w, 1, 0), x.ok(d)), fs + ok, f'{where}: intact')
      self.prove(x.size_ == size, fs, f'{where}: static length')
      self.prove(z3.And(x.length(d) == cd.n.len(d), x.length(d) >= 0, x.length(d) <= size), fs + ok, f'{where}: lengths')
    self.prove(cd.n.cnt(d) == z3.If(d == w, 1, 0), fs + ok, f'{where}: lengths count')
    self.prove(z3.And(stage >= 0, w >= 0, w < SIZE, BF(stage, w) == BF(stage, T),
                      z3.Or(stage == 0, *[z3.And(x >= 0, x < SIZE, NF(stage, x) > 1) for x in c.wit])), fs, f'{where}: the stage')
    self.prove(cd.data[0].val(w) == T, fs, f'{where}: target')

  def havoc(self, like, w, size):
    """data with the item on w, intact, with the values of `like` (whose holder is the current one)"""
    c = pyvc.CTX
    ln = ufun('length')
    old = c.holder
    c.known.append(lambda d: z3.And(ln(d) >= 0, ln(d) <= size))
    cnt = lambda d: z3.If(d == w, z3.IntVal(1), z3.IntVal(0))
    data = [Leaf(x.name, cnt, size, lambda d: z3.BoolVal(True), lambda d, x=x: x.val(old), ln, x.glob, x.dtype) for x in like.data]
    return type(like)(data=data, n=GNum(ln, cnt)), ln

  # the contract of the loop (proved by routevc.loop_contract)
  def route(self, cd, start, *, axis_name, buffer_size):
    c = pyvc.CTX
    if axis_name != 'i':
      raise Failed('exchange over another axis')
    size, stage = num(buffer_size), num(start)
    self.state(cd, stage, size, 'call of the loop')
    self.prove(size >= 0, [], 'call of the loop: the buffer')
    w, i, mx, dd = fresh('holder'), fresh('stage'), fresh('max'), fresh('unsplit')
    out, ln = self.havoc(cd, w, size)
    for e in (w >= 0, w < SIZE, z3.Implies(mx <= size, w == T),
              z3.Implies(mx > size, z3.And(BF(i, w) == BF(i, T), i >= stage, dd >= 0, dd < SIZE, NF(i, dd) > 1))):
      c.assume(e)
    c.known.append(lambda d: z3.Implies(mx <= size, ln(d) <= mx))
    c.wit.append(dd)
    c.holder = w
    return out, GIntLocal(mx), GIntLocal(i)

  # the loop of the driver
  def entry(self, k, it, loc, names):
    c = pyvc.CTX
    if c.cut:
      raise Unsupported('two loops in the driver')
    c.cut = True
    st = {x: loc[x] for x in names if x in loc}
    roles = {}
    for x, v in st.items():
      if type(v).__name__ == 'CrystalData':
        roles[x] = 'data'
      elif isinstance(v, GInt):
        roles[x] = 'stage'
      elif isinstance(v, (pyvc.Z, int)) and not isinstance(v, bool):
        roles[x] = 'size'
      else:
        raise Unsupported(f'{x} in the loop')
    if sorted(roles.values()) != ['data', 'size', 'stage']:
      raise Unsupported('state of the loop')
    self.role = {r: x for x, r in roles.items()}
    cd, stage, size = st[self.role['data']], st[self.role['stage']].e, num(st[self.role['size']])
    self.state(cd, stage, size, 'before the loop')
    self.vals0 = [x.val(c.holder) for x in cd.data]
    # an arbitrary iteration
    w, i, B, dd = fresh('holder'), fresh('stage'), fresh('buffer'), fresh('unsplit')
    new, ln = self.havoc(cd, w, B)
    c.holder = w
    c.wit[:] = [dd]
    for e in (SIZE >= 1, w >= 0, w < SIZE, B >= 0, i >= 0, BF(i, w) == BF(i, T), z3.Or(i == 0, z3.And(dd >= 0, dd < SIZE, NF(i, dd) > 1))):
      c.assume(e)
    self.size0 = B
    return {self.role['data']: new, self.role['stage']: GInt(i), self.role['size']: pyvc.Z(B)}

  def exit(self, k, it, loc, names):
    raise PathOver()

  def element(self, k, it):
    return None

  def step(self, k, loc):
    c = pyvc.CTX
    cd, stage, size = loc[self.role['data']], loc[self.role['stage']], num(loc[self.role['size']])
    if not isinstance(stage, GInt):
      raise Unsupported('stage')
    self.state(cd, stage.e, size, 'after an iteration')
    for x, v in zip(cd.data, self.vals0):
      self.prove(x.val(c.holder) == v, self.facts(c.holder), 'after an iteration: values')
    self.prove(size > self.size0, self.facts(c.holder), 'the buffer grows')


class PathOver(pyvc.PathEnd):
  pass


class GIntLocal:
  """the same number on every device, seen by a device"""

  def __init__(self, e):
    self.e = e

  def __hash__(self):
    return id(self)


@contextlib.contextmanager
def host(vc=None):
  import jax.numpy as jnp
  from swirl_fem.communication import crystal_router as mod
  saved = []

  def put(m, n, v):
    saved.append((m, n, m.__dict__.get(n, saved)))
    setattr(m, n, v)
  keep = getattr(pyvc.Z, 'bit_length', None)
  try:
    pyvc.Z.bit_length = lambda s: exponent(s)
    for n, v in list(vars(mod).items()):
      if v is np:
        put(mod, n, Host(np))
      elif v is jnp and vc is not None:
        put(mod, n, Jnp(jnp))
      elif getattr(v, '__name__', None) == 'jax.lax' and vc is not None:
        put(mod, n, Axis(v))
    put(mod, 'int', pyint)
    put(mod, 'max', lambda *a: zpick(max, *a))
    put(mod, 'min', lambda *a: zpick(min, *a))
    if vc is not None:
      put(mod, locate(mod, '_crystal_router_loop', ('crystal_data', 'start_stage', 'axis_name', 'buffer_size')), vc.route)
      put(mod, 'jit_distributed', distributed)
      put(mod.CrystalData, 'resize', resized)
      try:
        b = bit_ceil_of(mod)
        put(mod, b, grown(getattr(mod, b)))
      except Unsupported:
        pass                      # no such function: its code is part of the driver
      flat = mod._crystal_router_flat

      def wrapped(*a, **k):
        f = flat(*a, **k)
        return pyvc.instrument(f, vc)
      put(mod, '_crystal_router_flat', wrapped)
    yield mod
  finally:
    for m, n, v in reversed(saved):
      if v is saved:
        delattr(m, n)
      else:
        setattr(m, n, v)
    if keep is None:
      del pyvc.Z.bit_length


def resized(self, size):
  s = num(size)
  return type(self)(data=[x.resized(s) for x in self.data], n=self.n)


class Jnp(Host):
  def full_like(self, a, v, *x, **k):
    return a.filled(v)

  def broadcast_to(self, v, shape):
    raise Unsupported('broadcast_to')


class Axis:
  def __init__(self, real):
    self.real = real

  def axis_index(self, axis_name):
    if axis_name != 'i':
      raise Failed('another axis')
    return scanvc.Dev(lambda d: d, 'local', np.dtype('int32'))

  def __getattr__(self, nm):
    def f(*a, **k):
      raise Unsupported(nm)
    return f


def distributed(f=None, *, mesh=None, axis_name=None):
  """contract of jit_distributed (C18): f on every device"""
  import jax
  if f is None:
    return lambda g: distributed(g, mesh=mesh, axis_name=axis_name)
  if mesh != 'mesh' or axis_name != 'i':
    raise Failed('another mesh or axis')

  def local(x):
    if isinstance(x, Leaf):
      return x.view(False)
    if isinstance(x, GInt):
      return pyvc.Z(x.e)
    if isinstance(x, GNum):
      return x
    raise Unsupported(f'{type(x).__name__} given to the devices')

  def back(x):
    if isinstance(x, Leaf):
      return x.view(True)
    if isinstance(x, GIntLocal):
      return GInt(x.e)
    if isinstance(x, GNum):
      return x
    if isinstance(x, (pyvc.Z, int)):
      return GInt(num(x))
    raise Unsupported(f'{type(x).__name__} from the devices')

  def run(*a, **k):
    out = f(*jax.tree_util.tree_map(local, a), **k)
    return jax.tree_util.tree_map(back, out)
  return run


def driver_contract(wrong=False):
  """crystal_router for every number of devices, every length, item and history of overflows"""
  import jax
  vc = Driver(wrong)
  ends, paths = [0], 0
  payloads = [lambda x: {}, lambda x: x('p'), lambda x: dict(a=x('p'), b=[x('q'), (x('r'),)])]
  for build in payloads:
    for src in (True, False, None):
      def run(ctx):
        scanvc._c = itertools.count()
        ctx.known, ctx.wit, ctx.cut = [], [], False
        p, m = z3.Int('origin'), z3.Int('length')
        ctx.holder = p
        for e in (SIZE >= 1, p >= 0, p < SIZE, T >= 0, T < SIZE, m >= 0, BF(0, p) == 0, BF(0, T) == 0):
          ctx.assume(e)
        ln = ufun('n')
        ctx.known.append(lambda d: z3.And(ln(d) >= 0, ln(d) <= m))
        cnt = lambda d: z3.If(d == p, z3.IntVal(1), z3.IntVal(0))
        letter = {q: z3.Int(f'value_{q}') for q in 'pqr'}

        def leaf(name, v):
          return Leaf(name, cnt, m, lambda d: z3.BoolVal(True), lambda d: v, ln, True, name)
        data = build(lambda q: leaf(q, letter[q]))
        with host(vc) as mod:
          route = mod.crystal_router_setup('mesh', 'i')
          a = (GNum(ln, cnt), data, leaf('target', T))
          out = route(*a) if src is None else route(*a, src)
        want = 2 if src is False else 3
        if not isinstance(out, tuple) or len(out) != want:
          raise Failed(f'{len(out)} results')
        n, back = out[0], out[1]
        if not isinstance(n, GNum) or jax.tree_util.tree_structure(back) != jax.tree_util.tree_structure(data):
          raise Failed('the results are not those asked for')
        d = z3.Int('d')
        fs = vc.facts(d, ctx.holder, T) + [d >= 0, d < SIZE]
        goal = T if not vc.wrong else T + 1
        vc.prove(n.cnt(d) == z3.If(d == goal, 1, 0), fs, 'the item is counted on its target only')
        got = jax.tree_util.tree_leaves(back)
        exp = [letter[x.name] for x in jax.tree_util.tree_leaves(data)]
        if want == 3:
          got, exp = got + [out[2]], exp + [p]
        for x, v in zip(got, exp):
          if not isinstance(x, Leaf) or not x.glob:
            raise Unsupported('result')
          vc.prove(z3.And(x.cnt(d) == z3.If(d == T, 1, 0), x.ok(d), n.len(d) <= x.size_), fs, 'the item is on its target only, intact')
          vc.prove(x.val(T) == v, fs, 'the values (payload and source) are those of the item')
        ends[0] += 1
      paths += pyvc.explore(run, limit=60)
  if not ends[0]:
    raise Unsupported('no path reaches the end')
  return f'{vc.nobl} verification conditions on {paths} paths'

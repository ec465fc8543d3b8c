"""Verification conditions for tensor-product index code: arrays with axes of symbolic size.

The function is recompiled from its current source on every run (the loop hooks of vf/symcol.py) and run on symbolic
arrays. An axis is a list of digits, each running over a (possibly symbolic) size; an entry is a polynomial in the digits
and the sizes, so reshapes, transposes and flips are renamings of digits and two arrays agree for every size exactly if
their polynomials do. A loop over a symbolic sequence is replaced by its body run once for a generic element, whose
appends become one block of the list; anything carried from one iteration to the next is outside the subset.
"""
import functools, inspect, itertools
import numpy as np
from vf import symcol as sc
from vf.core import Failed, Unsupported

FRAMES = []
_N = [0]


def sp():
  import sympy
  return sympy


def fresh(nm='d'):
  _N[0] += 1
  return sp().Symbol(f'{nm}{_N[0]}')


# ---------------------------------------------------------------- scalars
class Rules:
  """lower bounds of the symbols, the divisions that go without a remainder, equations between the sizes"""
  low, div, eq = {}, {}, []


def lower(e):
  """(e >= 0, e > 0) for all values of its symbols above their bounds; None where that is not known to hold"""
  s = sp()
  e = s.expand(e)
  if e.is_number:
    return bool(e >= 0), bool(e > 0)
  if not e.free_symbols <= set(Rules.low):
    return False, False
  e = s.expand(e.subs({q: q + lo for q, lo in Rules.low.items()}, simultaneous=True))
  if e.is_number:
    return bool(e >= 0), bool(e > 0)
  p = s.Poly(e, *sorted(e.free_symbols, key=str))
  c0 = p.coeff_monomial(1)
  ok = all(c >= 0 for c in p.coeffs())
  return ok, ok and bool(c0 > 0)


def compare(e, strict):
  """the truth of e >= 0 (e > 0); Unsupported if it depends"""
  ge, gt = lower(e)
  if gt or ge and not strict:
    return True
  le, lt = lower(-e)
  if lt or le and strict:
    return False
  raise Unsupported('a comparison that depends on the sizes')


class S:
  """a number given by a polynomial (rational function) of symbols"""
  __slots__ = ('e',)
  __array_ufunc__ = None

  def __init__(self, e):
    self.e = sp().sympify(e)

  def _op(self, o, f):
    o = raw(o)
    return NotImplemented if o is None else S(sp().expand(f(self.e, o)))

  def __add__(self, o): return self._op(o, lambda a, b: a + b)
  def __radd__(self, o): return self._op(o, lambda a, b: b + a)
  def __sub__(self, o): return self._op(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._op(o, lambda a, b: b - a)
  def __mul__(self, o): return self._op(o, lambda a, b: a * b)
  def __rmul__(self, o): return self._op(o, lambda a, b: b * a)
  def __truediv__(self, o): return self._op(o, lambda a, b: a / b)
  def __rtruediv__(self, o): return self._op(o, lambda a, b: b / a)
  def __neg__(self): return S(-self.e)
  def __pos__(self): return self

  def __pow__(self, k):
    if isinstance(k, (int, np.integer)) and k >= 0:
      return S(sp().expand(self.e ** int(k)))
    raise Unsupported('power')

  def __rpow__(self, k):
    raise Unsupported('symbolic exponent')

  def _div(self, o):
    o = raw(o)
    k = (self.e, o)
    if k in Rules.div:
      return Rules.div[k]
    q = sp().cancel(self.e / o)
    if sp().denom(q).is_number and all(c.is_integer for c in sp().Poly(q, *q.free_symbols).coeffs()) if q.free_symbols else q.is_integer:
      return q
    raise Unsupported('division with an unknown remainder')

  def __floordiv__(self, o):
    return S(self._div(o))

  def __mod__(self, o):
    self._div(o)
    return 0

  def __divmod__(self, o):
    return self // o, self % o

  def minus(self, o):
    o = raw(o)
    if o is None:
      raise Unsupported('comparison')
    return sp().expand(sp().cancel(self.e - o))

  def __eq__(self, o):
    if raw(o) is None:
      return False
    d = self.minus(o)
    if d == 0:
      return True
    if lower(d)[1] or lower(-d)[1]:
      return False
    raise Unsupported('a comparison that depends on the sizes')

  def __ne__(self, o): return not self == o
  def __lt__(self, o): return compare(-self.minus(o), True)
  def __gt__(self, o): return compare(self.minus(o), True)
  def __le__(self, o): return compare(-self.minus(o), False)
  def __ge__(self, o): return compare(self.minus(o), False)

  def __hash__(self):
    return hash(self.e)

  def __bool__(self):
    return self != 0

  def __index__(self):
    if self.e.is_Integer:
      return int(self.e)
    raise Unsupported('a symbolic number is used as a concrete one')
  __int__ = __index__

  def __float__(self):
    if self.e.is_number:
      return float(self.e)
    raise Unsupported('a symbolic number is used as a concrete one')

  def __repr__(self):
    return f'<{self.e}>'
  __str__ = __repr__

  def __format__(self, spec):
    return repr(self)


def raw(x):
  if isinstance(x, S):
    return x.e
  if isinstance(x, (bool, int, np.integer)):
    return sp().Integer(int(x))
  if isinstance(x, (float, np.floating)):
    return sp().nsimplify(float(x), rational=True)
  return None


def same(a, b):
  a, b = raw(a), raw(b)
  if a is None or b is None:
    return False
  d = sp().expand(sp().cancel(a - b))
  if d != 0 and Rules.eq and d.free_symbols:
    # a Groebner basis: the leading terms are products of different symbols
    d = sp().reduced(d, Rules.eq, *sorted(set().union(*[q.free_symbols for q in Rules.eq]), key=lambda q: (str(q) == 'N', str(q))))[1]
  return sp().expand(d) == 0


def conc(n):
  """the int if the size is one"""
  if isinstance(n, (int, np.integer)):
    return int(n)
  return int(n.e) if isinstance(n, S) and n.e.is_Integer else None


def is1(n):
  return conc(n) == 1


# ---------------------------------------------------------------- ordered sequences
class GSeq:
  """the values f(c1, ..., ck), lexicographically, c_i running over sizes[i] (ints for concrete sizes)"""

  def __init__(self, sizes, f):
    self.sizes, self.f = list(sizes), f

  def __iter__(self):
    raise Unsupported('a symbolic sequence is iterated outside a loop')

  def __len__(self):
    raise Unsupported('len')

  def size(self):
    return functools.reduce(lambda a, b: a * b, self.sizes, 1)

  def __bool__(self):
    return bool(self.size())


def coords(sizes):
  """generic coordinates: ints for concrete digits (all combinations), symbols otherwise"""
  syms = [None if conc(n) is not None else S(fresh('c')) for n in sizes]
  for k in itertools.product(*[range(conc(n)) if s is None else [s] for n, s in zip(sizes, syms)]):
    yield list(k)


def put(v, old, new):
  """v with the symbols old replaced"""
  if isinstance(v, S):
    return S(v.e.subs({a.e: raw(b) for a, b in zip(old, new) if isinstance(a, S)}, simultaneous=True))
  if isinstance(v, GL):
    r = GL()
    r.blocks = [(k, put(x, old, new)) for k, x in v.blocks]
    return r
  if isinstance(v, (tuple, list)):
    return type(v)(put(x, old, new) for x in v)
  if isinstance(v, GSeq):
    return GSeq([put(n, old, new) for n in v.sizes], lambda *c: put(v.f(*c), old, new))
  if isinstance(v, Grid):
    return Grid([[put(n, old, new) for n in ax] for ax in v.axes], lambda *c: put(v.f(*c), old, new))
  if isinstance(v, (int, float, np.integer, np.floating, bool, str, type(None))):
    return v
  raise Unsupported(f'a value of type {type(v).__name__} in a loop')


class GL:
  """a list: blocks ('item', v) and ('seq', GSeq)"""

  def __init__(self):
    self.blocks, self.level = [], len(FRAMES)

  def _add(self, b):
    if len(FRAMES) > getattr(self, 'level', 0):
      FRAMES[-1].setdefault(id(self), (self, []))[1].append(b)
    else:
      self.blocks.append(b)

  def append(self, v):
    self._add(('item', v))

  def extend(self, x):
    for b in blocks_of(x):
      self._add(b)

  def __iadd__(self, x):
    self.extend(x)
    return self

  def __add__(self, x):
    r = GL()
    r.blocks = self.read() + blocks_of(x)
    return r

  def __radd__(self, x):
    r = GL()
    r.blocks = blocks_of(x) + self.read()
    return r

  def read(self):
    if any(id(self) in f for f in FRAMES):
      raise Unsupported('a list is read in the loop that fills it')
    return list(self.blocks)

  def plain(self):
    b = self.read()
    return [v for _, v in b] if all(k == 'item' for k, _ in b) else None

  def __iter__(self):
    p = self.plain()
    if p is None:
      raise Unsupported('a symbolic list is iterated outside a loop')
    return iter(p)

  def __getitem__(self, i):
    p = self.plain()
    if p is None:
      raise Unsupported('indexing of a symbolic list')
    return p[i]

  def count_(self):
    return functools.reduce(lambda a, b: a + b, [1 if k == 'item' else v.size() for k, v in self.read()], 0)

  def __len__(self):
    return int(self.count_())

  def __bool__(self):
    return bool(self.count_() != 0)

  def seqs(self):
    """as one GSeq if it is one block"""
    b = self.read()
    if len(b) == 1 and b[0][0] == 'seq':
      return b[0][1]


class GDict(dict):
  """a dictionary that must not be written in a symbolic loop"""

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.level, self.factory = len(FRAMES), None

  def __setitem__(self, k, v):
    if len(FRAMES) > self.level:
      raise Unsupported('a dictionary is written in a loop')
    super().__setitem__(k, v)

  def __missing__(self, k):
    if self.factory is None:
      raise KeyError(k)
    self[k] = self.factory()
    return self[k]

  def setdefault(self, k, d=None):
    if k not in self:
      self[k] = d
    return self[k]

  def update(self, *a, **k):
    for q, v in dict(*a, **k).items():
      self[q] = v


def defaultdict(factory=None, *a):
  d = GDict(*a)
  d.factory = factory
  return d


def blocks_of(x):
  if isinstance(x, GL):
    return x.read()
  if isinstance(x, GSeq):
    return [('seq', x)]
  if isinstance(x, Grid):
    return [('seq', x.rows())]
  if isinstance(x, Cat):
    return [b for p in x.parts for b in blocks_of(p)]
  return [('item', v) for v in x]


def gseq(x):
  """a GSeq if x is a symbolic sequence, else None"""
  if isinstance(x, GSeq):
    return x
  if isinstance(x, Grid):
    if all(conc(n) is not None for n in x.axes[0]):
      return None
    return x.rows()
  if isinstance(x, GL):
    if x.plain() is not None:
      return None
    s = x.seqs()
    if s is None:
      raise Unsupported('a loop over a list of several blocks')
    return s


# ---------------------------------------------------------------- loops (hooks called by the recompiled code)
class Fr(dict):
  pass


def begin(key, it, mutable=()):
  s = gseq(it)
  if s is None:
    return None
  fr = Fr()
  fr.seq = s
  return fr


def run(fr):
  s = fr.seq
  runs = []
  for cs in coords(s.sizes):
    me = Fr()
    FRAMES.append(me)
    try:
      yield s.f(*cs)
    finally:
      FRAMES.pop()
    runs.append((cs, me))
  ids = list(runs[0][1]) if runs else []
  for cs, me in runs:
    if list(me) != ids:
      raise Unsupported('iterations fill different lists')
  for i in ids:
    lst = runs[0][1][i][0]
    per = [me[i][1] for _, me in runs]
    if any(len(p) != len(per[0]) for p in per):
      raise Unsupported('iterations of different length')
    old = [cs for cs, _ in runs]
    if len(per[0]) == 1 and per[0][0][0] == 'item':
      def f(*c, per=per, old=old):
        k = which(c, s.sizes, old)
        return put(per[k][0][1], old[k], c)
      lst._add(('seq', GSeq(s.sizes, f)))
    elif all(k == 'item' for p in per for k, _ in p):
      def f(*c, per=per, old=old):
        k = which(c[:-1], s.sizes, old)
        return put(per[k][c[-1]][1], old[k], c[:-1])
      lst._add(('seq', GSeq(s.sizes + [len(per[0])], f)))
    elif len(per[0]) == 1 and len(per) == 1:
      q = per[0][0][1]
      if any(not same(put(n, old[0], [S(fresh()) for _ in old[0]]), n) for n in q.sizes):
        raise Unsupported('a loop of varying length')
      lst._add(('seq', GSeq(s.sizes + q.sizes, lambda *c: put(q.f(*c[len(s.sizes):]), old[0], c[:len(s.sizes)]))))
    else:
      raise Unsupported('nested loops')


def which(c, sizes, old):
  for k, o in enumerate(old):
    if all(conc(n) is None or int(x) == y for x, n, y in zip(c, sizes, o)):
      return k
  raise Unsupported('coordinates')


def raised(fr, e):
  pass


POISON = sc.POISON
unsupported = sc.unsupported


def new_list():
  return GL()


def new_dict():
  return GDict()


def comp(key, kind, elt, it, cond):
  s = gseq(it)
  if s is None:
    g = (elt(e) for e in it if cond(e))
    return {'list': list, 'set': set, 'gen': list, 'dict': dict}[kind](g)
  out = GL()
  for e in run(begin(key, it)):
    if not cond(e):
      raise Unsupported('a filtered comprehension')
    out.append(elt(e))
  if kind in ('set', 'dict'):
    raise Unsupported('a set of symbolic values')
  return out


# ---------------------------------------------------------------- arrays
class Grid:
  """axes: lists of digit sizes; entry f(*digits), the digits of all axes in order"""

  def __init__(self, axes, f):
    self.axes, self.f = [list(a) for a in axes], f

  __array_ufunc__ = None

  @property
  def ndim(self):
    return len(self.axes)

  @property
  def shape(self):
    return tuple(num(functools.reduce(lambda a, b: a * b, ax, 1)) for ax in self.axes)

  @property
  def size(self):
    return num(functools.reduce(lambda a, b: a * b, self.shape, 1))

  def __len__(self):
    return int(self.shape[0])

  def digits(self):
    return [n for ax in self.axes for n in ax]

  def split(self, c):
    out, k = [], 0
    for ax in self.axes:
      out.append(list(c[k:k + len(ax)]))
      k += len(ax)
    return out

  def rows(self):
    k = len(self.axes[0])
    rest = self.axes[1:]
    return GSeq(self.axes[0], lambda *c: Grid(rest, lambda *d: self.f(*c, *d)) if rest else self.f(*c))

  def __iter__(self):
    if any(conc(n) is None for n in self.axes[0]):
      raise Unsupported('a symbolic array is iterated outside a loop')
    s = self.rows()
    return iter([s.f(*c) for c in itertools.product(*[range(conc(n)) for n in s.sizes])])

  def transpose(self, *perm):
    if len(perm) == 1 and (isinstance(perm[0], (tuple, list)) or perm[0] is None):
      perm = perm[0]
    perm = list(perm) if perm else list(range(self.ndim))[::-1]
    if sorted(p % self.ndim for p in perm) != list(range(self.ndim)):
      raise ValueError('axes')
    perm = [p % self.ndim for p in perm]

    def f(*c):
      parts = Grid(axes, None).split(c)
      src = [None] * self.ndim
      for k, p in enumerate(perm):
        src[p] = parts[k]
      return self.f(*[x for s in src for x in s])
    axes = [self.axes[p] for p in perm]
    return Grid(axes, f)

  @property
  def T(self):
    return self.transpose()

  def swapaxes(self, a, b):
    p = list(range(self.ndim))
    p[a], p[b] = p[b], p[a]
    return self.transpose(p)

  def flatten(self, *a):
    if a and a[0] != 'C':
      raise Unsupported('order')
    return Grid([self.digits()], self.f)
  ravel = flatten

  def copy(self):
    return self

  def astype(self, dt, **k):
    return self

  def reshape(self, *shape, **k):
    if k:
      raise Unsupported('order')
    if len(shape) == 1 and isinstance(shape[0], (tuple, list, GL)):
      shape = tuple(shape[0])
    shape = list(shape)
    total = self.size
    if any(isinstance(s, (int, np.integer)) and s == -1 for s in shape):
      j = [i for i, s in enumerate(shape) if isinstance(s, (int, np.integer)) and s == -1]
      if len(j) > 1:
        raise ValueError('reshape')
      rest = functools.reduce(lambda a, b: a * b, [s for i, s in enumerate(shape) if i != j[0]], 1)
      shape[j[0]] = num(S(raw(total)) // rest)
    if not same(functools.reduce(lambda a, b: a * b, shape, 1), total):
      raise ValueError('cannot reshape')
    src = [n for n in self.digits()]
    axes, conv = [[] for _ in shape], []      # conv: how old digits come from new ones
    i, new, t = 0, 0, 0
    todo = list(src)
    pos = []        # for every old digit: function of the new digits
    while t < len(shape):
      want, got, ax = shape[t], 1, []
      if t == len(shape) - 1:       # the rest
        axes[t] = todo[i:]
        pos += [('own', new + k) for k in range(len(todo) - i)]
        i = len(todo)
        break
      while not same(got, want):
        if i >= len(todo):
          raise Unsupported('reshape')
        n = todo[i]
        if divides(got * n, want):
          ax.append(n)
          pos.append(('own', new))
          new += 1
          got = num(got * n)
          i += 1
          continue
        # the digit is larger than what is left: it is split over the next axes
        left = num(S(raw(want)) // got)
        parts = [left]
        u = t + 1
        while not same(functools.reduce(lambda a, b: a * b, parts, 1), n):
          if u >= len(shape):
            raise Unsupported('reshape')
          parts.append(shape[u])
          u += 1
        ax.append(left)
        axes[t] = ax
        for q, v in enumerate(parts[1:]):
          axes[t + 1 + q] = [v]
        pos.append(('radix', new, parts))
        new += len(parts)
        i += 1
        t = u - 1
        ax, got, want = axes[t], 1, 1
        break
      else:
        pass
      axes[t] = ax
      t += 1
    while i < len(todo) and is1(todo[i]):
      pos.append(('zero',))
      i += 1
    if i != len(todo):
      raise Unsupported('reshape')

    def f(*c):
      old = []
      for q in pos:
        if q[0] == 'own':
          old.append(c[q[1]])
        elif q[0] == 'zero':
          old.append(0)
        else:
          v = 0
          for x, n in zip(c[q[1]:], q[2]):
            v = v * n + x
          old.append(v)
      return self.f(*old)
    return Grid(axes, f)

  def __getitem__(self, idx):
    idx = idx if isinstance(idx, tuple) else (idx,)
    if any(i is Ellipsis for i in idx):
      k = [i is Ellipsis for i in idx].index(True)
      idx = idx[:k] + (slice(None),) * (self.ndim - len(idx) + 1) + idx[k + 1:]
    if len(idx) > self.ndim:
      raise IndexError('too many indices')
    idx = idx + (slice(None),) * (self.ndim - len(idx))
    axes, how = [], []
    for i, ax in zip(idx, self.axes):
      if isinstance(i, slice) and i == slice(None):
        axes.append(ax)
        how.append(('all', len(ax)))
        continue
      if len(ax) != 1:
        raise Unsupported('indexing of a composed axis')
      n = ax[0]
      if isinstance(i, slice):
        if i.step not in (None, 1, -1):
          raise Unsupported('slice with a step')
        if i.step == -1:
          if i.start is not None or i.stop is not None:
            raise Unsupported('slice with a step')
          axes.append([n])
          how.append(('rev', n))
          continue
        lo = 0 if i.start is None else i.start if S(raw(i.start)) >= 0 else n + i.start
        hi = n if i.stop is None else i.stop if S(raw(i.stop)) >= 0 else n + i.stop
        if not S(raw(n)) >= hi or not S(raw(hi)) >= lo:
          raise Unsupported('slice bounds')
        axes.append([num(hi - lo)])
        how.append(('from', lo))
      else:
        if raw(i) is None:
          raise Unsupported('indexing')
        if conc(i) is not None and conc(i) < 0:
          i = n + i
        if not (0 <= S(raw(i)) and S(raw(i)) < n):
          raise IndexError('index out of range')
        how.append(('at', i))
    def f(*c):
      out, k = [], 0
      for h in how:
        if h[0] == 'all':
          out += c[k:k + h[1]]
          k += h[1]
        elif h[0] == 'from':
          out.append(c[k] + h[1])
          k += 1
        elif h[0] == 'rev':
          out.append(h[1] - 1 - c[k])
          k += 1
        else:
          out.append(h[1])
      return self.f(*out)
    return Grid(axes, f) if axes else f()

  def tolist(self):
    if self.ndim == 1:
      l = GL()
      l.blocks = [('seq', self.rows())]
      return l
    raise Unsupported('tolist')

  def _bin(self, o, op):
    if isinstance(o, Grid):
      if o.ndim != self.ndim or any(len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)) for a, b in zip(self.axes, o.axes)):
        raise Unsupported('arithmetic of arrays of different shapes')
      return Grid(self.axes, lambda *c: op(self.f(*c), o.f(*c)))
    if raw(o) is None:
      raise Unsupported('arithmetic')
    return Grid(self.axes, lambda *c: op(self.f(*c), o))

  def __add__(self, o): return self._bin(o, lambda a, b: a + b)
  def __radd__(self, o): return self._bin(o, lambda a, b: a + b)
  def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
  def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
  def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
  def __rmul__(self, o): return self._bin(o, lambda a, b: a * b)
  def __truediv__(self, o): return self._bin(o, lambda a, b: S(raw(a)) / b)


class Cat:
  """arrays concatenated along the first axis"""

  def __init__(self, parts):
    self.parts = parts

  @property
  def shape(self):
    return (num(sum([S(raw(p.shape[0])) for p in self.parts], S(0))),) + self.parts[0].shape[1:]

  @property
  def size(self):
    return num(sum([S(raw(p.size)) for p in self.parts], S(0)))

  @property
  def ndim(self):
    return self.parts[0].ndim

  def astype(self, *a, **k):
    return self

  def __iter__(self):
    raise Unsupported('a symbolic array is iterated outside a loop')


def num(n):
  c = conc(n)
  return c if c is not None else n


def divides(a, b):
  """b is a multiple of a, as polynomials (or by the rules)"""
  if same(a, b):
    return True
  if (raw(b), raw(a)) in Rules.div:
    return True
  q = sp().cancel(raw(b) / raw(a))
  if q.is_number:
    return bool(q.is_integer) and q > 0
  return bool(sp().denom(q).is_number) and lower(q)[1] and all(c.is_integer for c in sp().Poly(q, *sorted(q.free_symbols, key=str)).coeffs())


def grid_of(x):
  """np.array / np.asarray"""
  if isinstance(x, (Grid, Cat)):
    return x
  if isinstance(x, GSeq):
    l = GL()
    l.blocks = [('seq', x)]
    x = l
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      raise Unsupported('array of objects')
    return Grid([[n] for n in x.shape], lambda *c: take(x, c))
  if isinstance(x, GL) and x.plain() is None:
    parts = []
    for k, v in x.read():
      if k == 'item':
        v = stack([grid_of(v)] if sequence(v) else [v])
      else:
        v = seq_grid(v)
      parts.append(v)
    return parts[0] if len(parts) == 1 else Cat(parts)
  if isinstance(x, (list, tuple, GL)):
    xs = list(x)
    if not xs:
      return np.array([])
    return stack(xs)
  raise Unsupported(f'array of {type(x).__name__}')


def take(x, c):
  v = x[tuple(int(i) for i in c)]
  return v.item()


def sequence(v):
  return isinstance(v, (list, tuple, GL, GSeq, Grid, Cat, np.ndarray))


def stack(xs):
  if all(not sequence(v) for v in xs):
    return Grid([[len(xs)]], lambda i: xs[int(i)])
  gs = [grid_of(v) for v in xs]
  if any(isinstance(g, (Cat, np.ndarray)) for g in gs):
    raise Unsupported('array of blocks')
  for g in gs[1:]:
    if g.ndim != gs[0].ndim or not all(same(a, b) for a, b in zip(g.shape, gs[0].shape)):
      raise Unsupported('rows of different shapes')
  for g in gs[1:]:
    if any(len(a) != len(b) or not all(same(x, y) for x, y in zip(a, b)) for a, b in zip(g.axes, gs[0].axes)):
      raise Unsupported('rows of different layouts')
  return Grid([[len(gs)]] + gs[0].axes, lambda i, *c: gs[int(i)].f(*c))


def seq_grid(s):
  """the array of the values of a symbolic sequence"""
  probe = None
  for cs in coords(s.sizes):
    v = s.f(*cs)
    g = grid_of(v) if sequence(v) else None
    shape = None if g is None else g.axes
    if isinstance(g, (Cat, np.ndarray)):
      raise Unsupported('array of blocks')
    if probe is None:
      probe = (shape,)
    elif (shape is None) != (probe[0] is None) or shape is not None and str(shape) != str(probe[0]):
      raise Unsupported('rows of different shapes')
  if probe is None or probe[0] is None:
    return Grid([s.sizes], s.f)
  k = len(s.sizes)
  return Grid([s.sizes] + probe[0], lambda *c: grid_of(s.f(*c[:k])).f(*c[k:]))


class Np:
  """numpy with contracts for symbolic arrays"""

  def __getattr__(self, n):
    return getattr(np, n)

  @staticmethod
  def _sym(*xs):
    return any(isinstance(x, (S, Grid, Cat, GSeq, GL)) or isinstance(x, (list, tuple)) and Np._sym(*x) for x in xs)

  def array(self, x, dtype=None, **k):
    if isinstance(x, GL) and x.plain() is not None and not self._sym(*x.plain()):
      x = x.plain()
    if not self._sym(x):
      return np.array(x, dtype=dtype, **k)
    return grid_of(x)

  def asarray(self, x, dtype=None, **k):
    return self.array(x, dtype, **k)

  def arange(self, *a, dtype=None):
    if not self._sym(*a):
      return np.arange(*a, dtype=dtype)
    if len(a) > 2:
      raise Unsupported('arange with a step')
    lo, hi = (0, a[0]) if len(a) == 1 else a
    if conc(hi) is not None and conc(lo) is not None:
      return np.arange(int(lo), int(hi), dtype=dtype)
    return Grid([[num(hi - lo)]], lambda i: i + lo)

  def flip(self, x, axis=None):
    if not self._sym(x):
      return np.flip(x, axis)
    ax = set(range(x.ndim)) if axis is None else {a % x.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,))}
    flat = [k in ax for k, a in enumerate(x.axes) for _ in a]
    ns = x.digits()
    return Grid(x.axes, lambda *c: x.f(*[n - 1 - v if r else v for v, n, r in zip(c, ns, flat)]))

  def transpose(self, x, axes=None):
    return x.transpose(axes) if isinstance(x, Grid) else np.transpose(x, axes)

  def swapaxes(self, x, a, b):
    return x.swapaxes(a, b) if isinstance(x, Grid) else np.swapaxes(x, a, b)

  def reshape(self, x, shape, **k):
    return x.reshape(shape, **k) if isinstance(x, Grid) else np.reshape(x, shape, **k)

  def ravel(self, x):
    return x.ravel() if isinstance(x, Grid) else np.ravel(x)

  def linspace(self, a, b, num=50, **k):
    if not self._sym(a, b, num):
      return np.linspace(a, b, num, **k)
    if {q: v for q, v in k.items() if q != 'dtype' and not (q == 'endpoint' and v is True)}:
      raise Unsupported('linspace with options')
    if not num >= 2:
      raise Unsupported('linspace of one point')
    a_, b_ = S(raw(a)), S(raw(b))
    return Grid([[num]], lambda i: a_ + (b_ - a_) * i / (num - 1))

  def meshgrid(self, *xs, indexing='xy', **k):
    if not self._sym(*xs):
      return np.meshgrid(*xs, indexing=indexing, **k)
    if k or any(not isinstance(x, Grid) or x.ndim != 1 for x in xs):
      raise Unsupported('meshgrid')
    order = list(range(len(xs)))
    if indexing == 'xy' and len(xs) > 1:
      order[:2] = [1, 0]
    axes = [xs[o].axes[0] for o in order]
    out = []
    for j in range(len(xs)):
      def f(*c, j=j):
        return xs[j].f(*Grid(axes, None).split(c)[order.index(j)])
      out.append(Grid(axes, f))
    return out

  def stack(self, xs, axis=0, **k):
    xs = list(xs)
    if not self._sym(*xs):
      return np.stack(xs, axis, **k)
    if k:
      raise Unsupported('stack')
    g = stack(xs)
    axis %= g.ndim
    p = list(range(1, g.ndim))
    p.insert(axis, 0)
    return g.transpose(p)

  def repeat(self, a, repeats, axis=None):
    if not self._sym(a, repeats):
      return np.repeat(a, repeats, axis)
    if axis is None or raw(repeats) is None:
      raise Unsupported('repeat')
    a = grid_of(a)
    axis %= a.ndim
    k = sum(len(x) for x in a.axes[:axis + 1])
    axes = [list(x) for x in a.axes]
    axes[axis].append(repeats)
    return Grid(axes, lambda *c: a.f(*c[:k], *c[k + 1:]))

  def ravel_multi_index(self, idx, dims, **k):
    if not self._sym(idx, dims):
      return np.ravel_multi_index(idx, dims, **k)
    idx, dims = list(idx), list(dims)
    if k or len(idx) != len(dims) or any(raw(i) is None for i in idx):
      raise Unsupported('ravel_multi_index')
    v = 0
    for i, n in zip(idx, dims):
      INRANGE.append((i, n))
      v = v * n + i
    return v

  def concatenate(self, xs, axis=0, **k):
    xs = list(xs)
    if not self._sym(*xs):
      return np.concatenate(xs, axis, **k)
    if axis != 0 or k:
      raise Unsupported('concatenate')
    return Cat([p for x in xs for p in (x.parts if isinstance(x, Cat) else [grid_of(x)])])


INRANGE = []


def pairwise(x):
  if isinstance(x, GL):
    x = x.seqs() or x.plain()
  if isinstance(x, Grid):
    x = x.rows()
  if not isinstance(x, GSeq):
    return list(itertools.pairwise(x))
  if len(x.sizes) != 1:
    raise Unsupported('pairwise')
  return GSeq([num(x.sizes[0] - 1)], lambda i: (x.f(i), x.f(i + 1)))


def product(*its, repeat=1):
  its = [i if isinstance(i, (GSeq, Grid, GL)) else list(i) for i in its] * repeat
  ss = [gseq(i) if isinstance(i, (GSeq, Grid, GL)) else None for i in its]
  if all(s is None for s in ss):
    return list(itertools.product(*its))
  ss = [s if s is not None else GSeq([len(list(i))], lambda k, i=i: list(i)[int(k)]) for s, i in zip(ss, its)]
  ls = [len(s.sizes) for s in ss]

  def f(*c):
    out, k = [], 0
    for s, l in zip(ss, ls):
      out.append(s.f(*c[k:k + l]))
      k += l
    return tuple(out)
  return GSeq([n for s in ss for n in s.sizes], f)


def b_len(x):
  if isinstance(x, (Grid, Cat)):
    return x.shape[0]
  if isinstance(x, GL):
    return num(x.count_())
  if isinstance(x, GSeq):
    return num(x.size())
  return len(x)


def b_list(x=()):
  if isinstance(x, (GSeq, Grid)) and gseq(x) is not None:
    l = GL()
    l.blocks = [('seq', gseq(x))]
    return l
  if isinstance(x, GL):
    l = GL()
    l.blocks = x.read()
    return l
  x = list(x)
  if x:
    return x
  return GL()


def b_tuple(x=()):
  return tuple(x)


def b_range(*a):
  if any(isinstance(x, S) and conc(x) is None for x in a):
    if len(a) > 2:
      raise Unsupported('range with a step')
    lo, hi = (0, a[0]) if len(a) == 1 else a
    return GSeq([num(hi - lo)], lambda i: i + lo)
  return range(*[int(x) for x in a])


def b_map(f, *its):
  ss = [gseq(i) if isinstance(i, (GSeq, Grid, GL)) else None for i in its]
  if all(s is None for s in ss):
    return map(f, *its)
  if len(its) != 1:
    raise Unsupported('map over several symbolic sequences')
  return comp('map', 'list', f, its[0], lambda e: True)


def b_enumerate(x, start=0):
  s = gseq(x) if isinstance(x, (GSeq, Grid, GL)) else None
  if s is None:
    return enumerate(x, start)

  def f(*c):
    v = 0
    for k, n in zip(c, s.sizes):
      v = v * n + k
    return (v + start, s.f(*c))
  return GSeq(s.sizes, f)


def b_zip(*its):
  ss = [gseq(i) if isinstance(i, (GSeq, Grid, GL)) else None for i in its]
  if all(s is None for s in ss):
    return zip(*its)
  if any(s is None or len(s.sizes) != len(ss[0].sizes) or not all(same(a, b) for a, b in zip(s.sizes, ss[0].sizes)) for s in ss):
    raise Unsupported('zip of different sequences')
  return GSeq(ss[0].sizes, lambda *c: tuple(s.f(*c) for s in ss))


def b_set(x=()):
  if isinstance(x, (GSeq, Grid, GL)) and gseq(x) is not None:
    raise Unsupported('a set of symbolic values')
  if FRAMES:
    raise Unsupported('a set in a loop')
  return set(x)


def b_reversed(x):
  if isinstance(x, (GSeq, Grid, GL)) and gseq(x) is not None:
    raise Unsupported('reversed')
  return reversed(list(x) if isinstance(x, GL) else x)


def b_sum(x, *a):
  if isinstance(x, (GSeq, Grid, GL)) and gseq(x) is not None:
    raise Unsupported('sum over a symbolic sequence')
  return sum(x, *a)


BUILT = dict(len=b_len, list=b_list, tuple=b_tuple, range=b_range, map=b_map, enumerate=b_enumerate, zip=b_zip, set=b_set,
             reversed=b_reversed, sum=b_sum)


def shim_modules(mods):
  from vf.props.c26 import Shim
  import collections, more_itertools
  g = dict(BUILT)
  g.update(sorted=sorted, dict=dict, max=max, min=min)
  for nm, v in mods.items():
    if v is np:
      g[nm] = Np()
    elif v is itertools:
      g[nm] = Shim(itertools, product=product, pairwise=pairwise)
    elif v is more_itertools:
      g[nm] = Shim(more_itertools, pairwise=pairwise)
    elif v is collections:
      g[nm] = Shim(collections, defaultdict=defaultdict)
  return g


def instrument(fn, patch=None):
  """the function recompiled from its current source; the other functions of its module likewise"""
  import sys
  fn = inspect.unwrap(fn)
  g = shim_modules(fn.__globals__)
  g['__sc'] = sys.modules[__name__]
  g.update(patch or {})
  return sc.instrument(fn, g)

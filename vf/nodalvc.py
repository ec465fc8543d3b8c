"""Interpolation, differentiation and quadrature tables for every number of points, from the Python source.

The source of swirl_fem/core/interpolation.py is recompiled on every run with three mechanical changes: comprehensions become
`_vc_.comp(lambda targets: element, iterable)`, loops become `_vc_.pfor(body, iterable)`, and np / scipy / len, range, zip,
enumerate, sum are represented by contracts on *tables*: an array of symbolic size is a function from index terms to real
terms (z3). Over ordinary iterables all of them do what Python does.

  comprehension over a symbolic iterable: the table of its elements (the element expression evaluated at the index asked for)
  loop over a symbolic iterable: a parallel store. The cells written must determine the iteration, and no iteration may read
    what another one writes (both are proved); its effect is a piecewise table
  sum: a constant per summand; two sums are equal when their summands are, for every index
  conditions on symbolic values: both sides, joined as a case distinction

What the entries mean for every number of points is proved in lean/Nodal.lean (Lagrange basis, its derivatives, weights).
Contracts of leggauss, roots_jacobi, eval_legendre, binom, linspace: stated in `Np` and `Special` below.
An entry that is not shown to be what the contract says refutes nothing: Unsupported, the bounded stand-in decides.
"""
import ast
import glob
import inspect
import itertools
import os
import shutil
import subprocess
import sys
import types
import numpy as np
import z3
from vf.core import Failed, Unsupported
from vf import pyvc

_c = itertools.count()
IS, RS = z3.IntSort(), z3.RealSort()
SGN = z3.Function('sgn', IS, RS)                       # (-1)^i
SQRT = z3.Function('sqrt', RS, RS)
BINOM = z3.Function('binom', IS, IS, RS)


def fresh(nm, sort=IS):
  return z3.Const(f'{nm}!{next(_c)}', sort)


def term(x):
  """z3 term of a number, or None"""
  if isinstance(x, R):
    return x.e
  if isinstance(x, (bool, np.bool_)):
    return None
  if isinstance(x, (int, np.integer)):
    return z3.IntVal(int(x))
  if isinstance(x, (float, np.floating)):
    f = float(x)
    if f != f or f in (float('inf'), float('-inf')):
      return None
    a, b = f.as_integer_ratio()
    return z3.RealVal(a) / z3.RealVal(b) if b != 1 else z3.RealVal(a)
  if isinstance(x, np.ndarray) and x.ndim == 0 and x.dtype != object:
    return term(x[()])
  if isinstance(x, Tab) and not x.axes:
    return term(x.f())
  return None


def real(e):
  return z3.ToReal(e) if z3.is_int(e) else e


class Infinite:
  """division of something nonzero by zero (IEEE), of unknown sign"""

  def __rtruediv__(self, a):
    e = term(a)
    if e is None:
      raise Unsupported('infinite value')
    return R(z3.RealVal(0))


INF = Infinite()


class R:
  """a number"""
  __array_priority__ = 2000
  shape, ndim = (), 0
  dtype = np.dtype('float64')

  def __init__(self, e):
    self.e = e

  def __hash__(self):
    return hash(self.e)

  def __bool__(self):
    return pyvc.CTX.branch(self.e != 0)

  def __index__(self):
    raise Unsupported('a symbolic integer is used as a concrete one')

  def __float__(self):
    raise Unsupported('a symbolic number is used as a concrete one')
  __int__ = __float__

  def __array__(self, *a, **k):
    raise Unsupported('a symbolic number in a concrete array')

  def item(self):
    return self

  def astype(self, t):
    if np.dtype(t) != np.float64:
      raise Unsupported('conversion')
    return self

  def __pow__(self, k):
    if isinstance(k, (int, np.integer)) and 0 <= k <= 8:
      r = R(z3.IntVal(1) if z3.is_int(self.e) else z3.RealVal(1))
      for _ in range(int(k)):
        r = r * self
      return r
    if isinstance(k, float) and k == 0.5:
      return root(self)
    raise Unsupported('power')

  def __rpow__(self, b):
    if isinstance(b, (int, float, np.number)) and b == -1 and z3.is_int(self.e):
      return sgn(self.e)
    raise Unsupported('power')


def sgn(i):
  """(-1)^i"""
  i = z3.simplify(i)
  if z3.is_int_value(i):
    return R(z3.IntVal(1 if i.as_long() % 2 == 0 else -1))
  pyvc.CTX.fact(('sgn', i.get_id()), z3.And(z3.Or(SGN(i) == 1, SGN(i) == -1), (SGN(i) == 1) == (i % 2 == 0)))
  pyvc.CTX.keep.append(i)
  return R(SGN(i))


def root(x):
  e = z3.simplify(real(term(x)))
  s = SQRT(e)
  pyvc.CTX.keep.append(e)
  pyvc.CTX.fact(('sqrt', e.get_id()), z3.Implies(e >= 0, z3.And(s >= 0, s * s == e, z3.Implies(e > 0, s > 0))))
  return R(s)


def _arith(nm):
  def op(a, b):
    if nm in ('add', 'sub', 'mul') and z3.is_int(a) and z3.is_int(b):
      pass
    else:
      a, b = real(a), real(b)
    return dict(add=lambda: a + b, sub=lambda: a - b, mul=lambda: a * b)[nm]()

  def f(self, o, swap=False):
    if isinstance(o, Infinite):
      raise Unsupported('arithmetic with an infinite value')
    if nm == 'mul' and isinstance(o, list) and z3.is_int(self.e):
      if len(o) != 1:
        raise Unsupported('a repeated list')
      return Seq(z3.simplify(self.e) if pyvc.CTX.proves(self.e >= 0) else z3.simplify(z3.If(self.e > 0, self.e, 0)), lambda i: o[0])
    t = term(o)
    if t is None:
      return NotImplemented
    a, b = (t, self.e) if swap else (self.e, t)
    return R(op(a, b))
  return f


for _n in ('add', 'sub', 'mul'):
  setattr(R, f'__{_n}__', _arith(_n))
  setattr(R, f'__r{_n}__', lambda a, b, f=_arith(_n): f(a, b, True))


def divide(a, b):
  """IEEE division of reals: by zero gives an infinite value (of something nonzero)"""
  c = pyvc.CTX
  a, b = real(a), real(b)
  b1 = z3.simplify(b)
  if z3.is_rational_value(b1):
    if b1.as_fraction() == 0:
      raise Unsupported('division by zero')
    return R(a / b)
  if c.branch(b != 0):
    return R(a / b)
  if not c.proves(a != 0):
    raise Unsupported('0/0')
  return INF


def _div(self, o, swap=False):
  if isinstance(o, Infinite):
    return NotImplemented if not swap else NotImplemented
  t = term(o)
  if t is None:
    return NotImplemented
  return divide(t, self.e) if swap else divide(self.e, t)


R.__truediv__ = lambda s, o: _div(s, o)
R.__rtruediv__ = lambda s, o: _div(s, o, True)
R.__neg__ = lambda s: R(-s.e)
R.__pos__ = lambda s: s


def _fdiv(a, b, mod):
  if not (z3.is_int(a) and z3.is_int(b)):
    raise Unsupported('integer division of reals')
  b = z3.simplify(b)
  if not z3.is_int_value(b) or b.as_long() <= 0:
    raise Unsupported('division by a symbolic integer')
  return R(a % b if mod else a / b)


R.__mod__ = lambda s, o: _fdiv(s.e, term(o), True)
R.__floordiv__ = lambda s, o: _fdiv(s.e, term(o), False)
for _n, _f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b,
                   eq=lambda a, b: a == b, ne=lambda a, b: a != b).items():
  def _cmp(s, o, f=_f):
    t = term(o)
    if t is None:
      return NotImplemented
    a, b = s.e, t
    if not (z3.is_int(a) and z3.is_int(b)):
      a, b = real(a), real(b)
    return pyvc.B(f(a, b))
  setattr(R, f'__{_n}__', _cmp)
R.__abs__ = lambda s: R(z3.If(s.e >= 0, s.e, -s.e))


def integral(e):
  """no real terms"""
  seen = set()

  def walk(x):
    if x.get_id() in seen:
      return True
    seen.add(x.get_id())
    return not z3.is_real(x) and all(walk(y) for y in x.children())
  return walk(e)


# ---------------------------------------------------------------- the prover
class Ctx(pyvc.Ctx):
  """facts and sums are shared by all nested paths"""

  def __init__(self, prefix, base):
    super().__init__(prefix)
    self.base = base
    self.pc = list(base.pc0)
    self.keep = base.keep

  def fact(self, key, e):
    self.base.facts.setdefault(key, e)

  def solver(self):
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*self.pc)
    s.add(*self.base.facts.values())
    s.add(*self.base.instances())
    return s

  def proves(self, e):
    if integral(e):
      # conditions on indices are decided by the conditions on indices
      s = z3.Solver()
      s.set('timeout', 5000)
      s.add(*[p for p in self.pc if integral(p)])
    else:
      s = self.solver()
    s.add(z3.Not(e))
    return s.check() == z3.unsat

  def branch(self, e):
    e = z3.simplify(e)
    if z3.is_true(e):
      return True
    if z3.is_false(e):
      return False
    key = ('branch', e.get_id(), tuple(p.get_id() for p in self.pc))
    if key not in self.base.memo:
      # replays take the same decision
      yes = self.proves(e)
      self.base.memo[key] = yes, not yes and self.proves(z3.Not(e))
      self.keep.extend([e] + list(self.pc))
    yes, no = self.base.memo[key]
    if yes or no:
      return yes
    return self.choose([(True, e), (False, z3.Not(e))], 'branch')

  def choose(self, options, tag):
    k = len(self.trace)
    c = self.prefix[k] if k < len(self.prefix) else 0
    if k >= len(self.prefix):
      for j in range(1, len(options)):
        self.pending.append(list(self.trace) + [j])
    self.trace.append(c)
    self.pc.append(options[c][1])
    return options[c][0]


class VC:
  """one verification: shared facts, index terms, sums"""

  def __init__(self):
    self.pc0, self.facts, self.keep, self.sums, self.nobl, self.memo = [], {}, [], {}, 0, {}
    self.insts = []              # callables giving facts about the index terms seen
    self.recording = None
    self.tabs, self.byname = [], {}

  def instances(self):
    return [f for g in self.insts for f in g()]

  def run(self, fn):
    """fn with every symbolic condition decided: (value) when no case distinction is needed, else Unsupported"""
    out = self.cases(fn)
    if len(out) != 1:
      raise Unsupported('a case distinction outside the entries')
    return out[0][1]

  def cases(self, fn, limit=40):
    """[(conditions, value)] of fn over all paths; nested in the current path condition"""
    outer = pyvc.CTX
    base_pc = list(outer.pc) if outer is not None else list(self.pc0)
    todo, res, n = [[]], [], 0
    try:
      while todo:
        pre = todo.pop()
        ctx = Ctx(pre, self)
        ctx.pc = list(base_pc)
        pyvc.CTX = ctx
        try:
          v = fn()
          res.append((ctx.pc[len(base_pc):], v))
        except pyvc.PathEnd:
          pass
        todo.extend(ctx.pending)
        n += 1
        if n > limit:
          raise Unsupported('too many cases')
    finally:
      pyvc.CTX = outer
    # infeasible cases
    if len(res) > 1:
      live = []
      for cs, v in res:
        s = z3.Solver()
        s.set('timeout', 5000)
        if all(integral(p) for p in cs):
          s.add(*[p for p in base_pc if integral(p)], *cs)
        else:
          s.add(*base_pc, *self.facts.values(), *self.instances(), *cs)
        if s.check() != z3.unsat:
          live.append((cs, v))
      res = live
    return res

  def value(self, fn):
    """fn as one term, case distinctions joined"""
    cs = self.cases(fn)
    if not cs:
      raise Unsupported('no case')
    if all(v is INF for _, v in cs):
      return INF
    if any(v is INF for _, v in cs):
      raise Mixed(cs)
    ts = [(z3.And(*c) if c else z3.BoolVal(True), term(v)) for c, v in cs]
    if any(t is None for _, t in ts):
      raise Unsupported('not a number')
    if not all(z3.is_int(t) for _, t in ts):
      ts = [(c, real(t)) for c, t in ts]
    r = ts[-1][1]
    for c, t in reversed(ts[:-1]):
      r = z3.If(c, t, r)
    return R(r)

  def total(self, size, f):
    """sum over k < size of f(k)"""
    k = fresh('k')
    outer = pyvc.CTX
    if outer is None:
      raise Unsupported('sum outside')
    keep = list(outer.pc)
    outer.pc = keep + [k >= 0, k < size]
    inf = None
    try:
      body = self.value(lambda: f(k))
    except Mixed as e:
      inf = e.cs
    finally:
      outer.pc = keep
    if inf is not None:
      # exactly one term is infinite: so is the sum
      cond = z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, v in inf if v is INF])
      s = outer.solver()
      k2 = fresh('k')
      s.add(k >= 0, k < size, k2 >= 0, k2 < size, cond, z3.substitute(cond, (k, k2)), k != k2)
      for g in self.facts.values():
        s.add(z3.substitute(g, (k, k2)))
      s.add(*self.pairs(k2))
      if s.check() != z3.unsat:
        raise Unsupported('several infinite terms')
      w = [x for x in self.idx() if outer.proves(z3.And(x >= 0, x < size, z3.substitute(cond, (k, x))))]
      if not w:
        raise MaybeInfinite('an infinite term that may be absent')
      return INF
    if body is INF:
      raise Unsupported('all terms infinite')
    b = z3.simplify(real(body.e))
    # a function of the index terms it depends on; the same summand, the same function
    raw = [x for x in index_terms(b, size) if x.get_id() != k.get_id()]
    ps = [z3.Int(f'p!{q}') for q in range(len(raw))]
    bind = [(k, z3.Int('k!'))] + list(zip(raw, ps))
    norm, size1 = z3.simplify(z3.substitute(b, *bind)), z3.simplify(z3.substitute(size, *bind))
    key = (norm.get_id(), size1.get_id())
    if key not in self.sums:
      f = z3.Function(f'sum!{len(self.sums)}', *[IS] * len(ps), RS)
      self.sums[key] = (f, ps, size1, norm, k, raw)
      self.byname[f.name()] = self.sums[key]
    return R(self.sums[key][0](*raw))

  def idx(self):
    return [t for tab in self.tabs for t in tab.seen.values()]

  def pairs(self, k):
    return [f for tab in self.tabs for f in tab.about(k)]

  def prove(self, goal, what, extra=()):
    """goal under the current path, with sums related by their summands"""
    self.nobl += 1
    c = pyvc.CTX
    s = c.solver()
    s.set('timeout', 20000)
    s.add(*self.relate(list(c.pc) + list(extra), [goal]))
    s.add(*extra)
    s.add(z3.Not(goal))
    r = s.check()
    if r != z3.unsat:
      raise Unsupported(f'not shown: {what}' + ('' if r == z3.sat else ' (z3 unknown)'))

  def apps(self, terms):
    """applications of sums"""
    seen, out = set(), []

    def walk(e):
      if e.get_id() in seen:
        return
      seen.add(e.get_id())
      if z3.is_app(e) and e.decl().name() in self.byname:
        out.append(e)
      for ch in e.children():
        walk(ch)
    for t in terms:
      walk(t)
    return out

  def relate(self, assume, terms, depth=0):
    """equations between the sums in terms whose summands are equal for every index, and whose sizes are"""
    eqs = []
    if depth > 4:
      return eqs
    for x, y in itertools.combinations(self.apps(terms), 2):
      k = fresh('k')
      facts, sides = [], []
      for t in (x, y):
        _, ps, size, norm, rawk, raw = self.byname[t.decl().name()]
        args = [t.arg(i) for i in range(t.num_args())]
        sub = [(z3.Int('k!'), k)] + list(zip(ps, args))
        sides.append((z3.substitute(norm, *sub), z3.substitute(size, *sub)))
        facts += [z3.substitute(g, (rawk, k), *zip(raw, args)) for g in self.facts.values()]
      (ta, na), (tb, nb) = sides
      rng = [k >= 0, k < na]
      inner = self.relate(assume + rng, [ta, tb], depth + 1)
      s = z3.Solver()
      s.set('timeout', 5000)
      s.add(*assume, *rng, *facts, *self.facts.values(), *self.instances(), *self.pairs(k), *inner)
      s.add(z3.Or(ta != tb, na != nb))
      if s.check() == z3.unsat:
        eqs.append(x == y)
    return eqs


def index_terms(*es):
  """integer constants of the terms, other than sizes, in order of occurrence"""
  seen, out = set(), []

  def walk(e):
    if e.get_id() in seen:
      return
    seen.add(e.get_id())
    if z3.is_const(e) and z3.is_int(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() not in ('n', 'q'):
      out.append(e)
    for ch in e.children():
      walk(ch)
  for e in es:
    walk(e)
  return out


class MaybeInfinite(Unsupported):
  pass


class Mixed(MaybeInfinite):
  """infinite in some cases only"""

  def __init__(self, cs):
    super().__init__('a value that may be infinite')
    self.cs = cs


V = None        # the current verification


# ---------------------------------------------------------------- tables
class Tab:
  """f: one index term per axis (tuples of digits on a composite axis) -> number. axes: tuples of digit sizes."""
  __array_priority__ = 1000
  dtype = np.dtype('float64')

  def __init__(self, axes, f, base=None):
    self.axes, self.f, self.base = tuple(axes), f, base

  def __hash__(self):
    return id(self)

  def __array__(self, *a, **k):
    raise Unsupported('a symbolic table in a concrete array')

  @property
  def ndim(self):
    return len(self.axes)

  def extent(self, a):
    r = z3.IntVal(1)
    for s in self.axes[a]:
      r = s if z3.is_int_value(r) and r.as_long() == 1 else r * s
    return r

  @property
  def shape(self):
    return tuple(number(self.extent(a)) for a in range(self.ndim))

  @property
  def size(self):
    if self.ndim == 1:
      return number(self.extent(0))
    raise Unsupported('size')

  @property
  def T(self):
    if self.ndim < 2:
      return self
    if self.ndim == 2:
      return Tab(self.axes[::-1], lambda i, j: self.f(j, i))
    raise Unsupported('transpose')

  def copy(self):
    return Tab(self.axes, self.f)

  def astype(self, t, **k):
    if np.dtype(t) != np.float64:
      raise Unsupported('conversion')
    return self

  def __len__(self):
    raise Unsupported('len of a symbolic table')

  def __iter__(self):
    n = self.axes[0]
    if len(n) == 1 and z3.is_int_value(z3.simplify(n[0])):
      return iter([self[i] for i in range(z3.simplify(n[0]).as_long())])
    raise Unsupported('iteration over a symbolic table')

  def reshape(self, *s):
    s = s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s
    if len(s) == 1 and isinstance(s[0], (int, np.integer)) and s[0] == -1:
      cuts = list(itertools.accumulate([len(a) for a in self.axes], initial=0))
      f, ax = self.f, [d for a in self.axes for d in a]
      # a composite axis of several digits is indexed by the tuple of its digits
      one = lambda i: i if isinstance(i, tuple) else (i,)
      ax1 = [d for d in ax if not (z3.is_int_value(z3.simplify(d)) and z3.simplify(d).as_long() == 1)]

      def g(i):
        i = list(one(i))
        full = []
        for d in ax:
          full.append(z3.IntVal(0) if z3.is_int_value(z3.simplify(d)) and z3.simplify(d).as_long() == 1 else i.pop(0))
        return f(*[tuple(full[p:q]) if q - p != 1 else full[p] for p, q in zip(cuts, cuts[1:])])
      return Tab([tuple(ax1)], g)
    raise Unsupported('reshape')
  ravel = flatten = lambda self: self.reshape(-1)

  def squeeze(self, axis=None):
    drop = [a for a in range(self.ndim) if len(self.axes[a]) == 1 and z3.is_int_value(z3.simplify(self.axes[a][0]))
            and z3.simplify(self.axes[a][0]).as_long() == 1]
    if axis is not None:
      axis = axis % self.ndim
      if axis not in drop:
        raise Unsupported('squeeze')
      drop = [axis]
    keep = [a for a in range(self.ndim) if a not in drop]

    def g(*i):
      full = [z3.IntVal(0)] * self.ndim
      for a, x in zip(keep, i):
        full[a] = x
      return self.f(*full)
    return Tab([self.axes[a] for a in keep], g)

  def _cell(self, k):
    """(per axis: index term | slice | None (new axis))"""
    k = list(k if isinstance(k, tuple) else (k,))
    if Ellipsis in [x for x in k if x is Ellipsis]:
      p = [x is Ellipsis for x in k].index(True)
      n = self.ndim - len([x for x in k if x is not Ellipsis and x is not None])
      k[p:p + 1] = [slice(None)] * n
    k += [slice(None)] * (self.ndim - len([x for x in k if x is not None]))
    return k

  def index(self, x, a):
    if len(self.axes[a]) != 1:
      raise Unsupported('a number as index of a composite axis')
    e = term(x)
    if e is None or not z3.is_int(e):
      raise Unsupported(f'index of type {type(x).__name__}')
    n = self.axes[a][0]
    if z3.is_int_value(e) and e.as_long() < 0:
      e = n + e
    if not pyvc.CTX.proves(z3.And(e >= 0, e < n)):
      raise Unsupported('an index that may be out of range')
    return z3.simplify(e)

  def __getitem__(self, k):
    k = self._cell(k)
    f, axes, plan, a = self.f, [], [], 0
    rec = V.recording
    for x in k:
      if x is None:
        axes.append((z3.IntVal(1),))
        plan.append(None)
        continue
      if isinstance(x, slice):
        if x.start is None and x.stop is None and x.step is None:
          axes.append(self.axes[a])
          plan.append(('all', a, z3.IntVal(0), 1))
        else:
          if len(self.axes[a]) != 1:
            raise Unsupported('slice of a composite axis')
          n = self.axes[a][0]
          if x.step == -1 and x.start is None and x.stop is None:
            axes.append((n,))
            plan.append(('all', a, n - 1, -1))
          else:
            lo = term(0 if x.start is None else x.start)
            hi = n if x.stop is None else term(x.stop)
            if x.step not in (None, 1) or lo is None or hi is None:
              raise Unsupported('slice')
            wrap = lambda e: n + e if z3.is_int_value(e) and e.as_long() < 0 else e
            lo, hi = wrap(lo), wrap(hi)
            if not pyvc.CTX.proves(z3.And(lo >= 0, lo <= hi, hi <= n)):
              raise Unsupported('slice')
            axes.append((z3.simplify(hi - lo),))
            plan.append(('all', a, lo, 1))
      elif isinstance(x, Tab):
        raise Unsupported('index by a table')
      else:
        plan.append(('at', a, self.index(x, a), 1))
      a += 1
    if a != self.ndim:
      raise Unsupported('too many indices')

    def g(*i):
      i, full = list(i), [None] * self.ndim
      for p in plan:
        if p is None:
          i.pop(0)
        elif p[0] == 'at':
          full[p[1]] = p[2]
        else:
          j = i.pop(0)
          full[p[1]] = j if isinstance(j, tuple) or (z3.is_int_value(p[2]) and p[2].as_long() == 0 and p[3] == 1) else z3.simplify(p[2] + p[3] * j)
      if rec is not None:
        rec.read(self, full)
      return f(*full)
    if not axes:
      return g()
    return Tab(axes, g, base=self)

  def __setitem__(self, k, v):
    if V.recording is None:
      raise Unsupported('a store outside a loop')
    k = self._cell(k)
    if self.base is not None or any(isinstance(x, (slice, Tab)) or x is None for x in k):
      raise Unsupported('store of more than a cell')
    V.recording.store(self, [self.index(x, a) for a, x in enumerate(k)], v)

  # -- elementwise
  def _bin(self, o, f):
    if isinstance(o, (list, tuple)):
      return NotImplemented
    return elementwise(f, self, o)

  def sum(self, axis=None, keepdims=False):
    if axis is None and self.ndim == 1:
      axis = 0
    if axis is None or not isinstance(axis, (int, np.integer)):
      raise Unsupported('sum')
    axis = axis % self.ndim
    if len(self.axes[axis]) != 1:
      raise Unsupported('sum over a composite axis')
    n = self.axes[axis][0]
    f = self.f
    g = lambda *i: V.total(n, lambda k: f(*(i[:axis] + (k,) + i[axis + (1 if keepdims else 0):])))
    axes = self.axes[:axis] + (((z3.IntVal(1),),) if keepdims else ()) + self.axes[axis + 1:]
    return g() if not axes else Tab(axes, g)

  def dot(self, o):
    return matmul(self, o)

  def __matmul__(self, o):
    return matmul(self, o)


def number(e):
  e = z3.simplify(e)
  return e.as_long() if z3.is_int_value(e) else R(e)


def matmul(a, b):
  if not isinstance(a, Tab) or not isinstance(b, Tab) or b.ndim not in (1, 2) or len(a.axes[-1]) != 1:
    raise Unsupported('matmul')
  n = a.axes[-1][0]
  if not pyvc.CTX.proves(n == b.axes[0][0]):
    raise Unsupported('matmul of different sizes')
  fa, fb = a.f, b.f
  axes = a.axes[:-1] + b.axes[1:]
  p = len(a.axes) - 1
  g = lambda *i: V.total(n, lambda k: fa(*(i[:p] + (k,))) * fb(*((k,) + i[p:])))
  return g() if not axes else Tab(axes, g)


def size_one(ax):
  return len(ax) == 1 and z3.is_int_value(z3.simplify(ax[0])) and z3.simplify(ax[0]).as_long() == 1


def elementwise(f, *xs):
  """broadcasting"""
  xs = [from_list(x) if isinstance(x, (list, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0) else x for x in xs]
  ts = [x for x in xs if isinstance(x, Tab)]
  nd = max(t.ndim for t in ts)
  axes = []
  for a in range(nd):
    cand = [t.axes[a - (nd - t.ndim)] for t in ts if a - (nd - t.ndim) >= 0]
    big = [c for c in cand if not size_one(c)]
    for c in big[1:]:
      if len(c) != len(big[0]) or not pyvc.CTX.proves(z3.And(*[p == q for p, q in zip(c, big[0])])):
        raise Unsupported('broadcast of different sizes')
    axes.append(big[0] if big else cand[0])

  def g(*i):
    args = []
    for x in xs:
      if not isinstance(x, Tab):
        args.append(x)
        continue
      j = i[nd - x.ndim:]
      args.append(x.f(*[z3.IntVal(0) if size_one(ax) and not size_one(axes[nd - x.ndim + q]) else v for q, (ax, v) in enumerate(zip(x.axes, j))]))
    return f(*args)
  return Tab(axes, g)


import operator as _op
for _n in ('add', 'sub', 'mul', 'truediv', 'pow', 'mod', 'eq', 'ne', 'lt', 'le', 'gt', 'ge'):
  _f = getattr(_op, _n)
  setattr(Tab, f'__{_n}__', lambda a, b, f=_f: a._bin(b, f))
  if _n in ('add', 'sub', 'mul', 'truediv', 'pow'):
    setattr(Tab, f'__r{_n}__', lambda a, b, f=_f: a._bin(b, lambda x, y: f(y, x)))
Tab.__neg__ = lambda s: elementwise(lambda x: -x, s)


def from_list(x):
  """a concrete sequence as a table"""
  if isinstance(x, np.ndarray) and x.dtype == object:
    raise Unsupported('object array')
  if isinstance(x, np.ndarray):
    x = x.tolist()
  if not isinstance(x, (list, tuple)) or not x:
    if isinstance(x, (list, tuple)):
      return Tab([(z3.IntVal(0),)], lambda i: R(z3.RealVal(0)))
    raise Unsupported('not a sequence')
  rows = [from_list(y) if isinstance(y, (list, tuple)) else (as_tab(y) if isinstance(y, (Tab, Seq)) else y) for y in x]
  n = len(rows)
  inner = rows[0].axes if isinstance(rows[0], Tab) else ()
  for r in rows[1:]:
    if (r.axes if isinstance(r, Tab) else ()) and len(r.axes) != len(inner):
      raise Unsupported('ragged')

  def g(i, *j):
    i = z3.simplify(i)
    val = lambda r: r.f(*j) if isinstance(r, Tab) else r
    if z3.is_int_value(i):
      return val(rows[i.as_long()])
    for k in range(n - 1):
      if pyvc.CTX.branch(i == k):
        return val(rows[k])
    return val(rows[n - 1])
  return Tab([(z3.IntVal(n),)] + list(inner), g)


class Seq:
  """a symbolic iterable: size, element at an index term (may be a tuple)"""

  def __init__(self, size, at, kind='list'):
    self.size_, self.at, self.kind = size, at, kind

  def __hash__(self):
    return id(self)

  def __iter__(self):
    raise Unsupported('iteration over a symbolic sequence')

  def __len__(self):
    raise Unsupported('len')

  def __array__(self, *a, **k):
    raise Unsupported('a symbolic sequence in a concrete array')

  def __getitem__(self, k):
    if isinstance(k, slice):
      raise Unsupported('slice of a sequence')
    e = term(k)
    if e is None:
      raise Unsupported('index')
    if z3.is_int_value(e) and e.as_long() < 0:
      e = self.size_ + e
    return self.at(e)

  def __add__(self, o):
    return join([self, o])

  def __radd__(self, o):
    return join([o, self])


def seq(x):
  """Seq of an iterable, None if it is an ordinary one"""
  if isinstance(x, Seq):
    return x
  if isinstance(x, Tab):
    if len(x.axes[0]) != 1:
      raise Unsupported('iteration over a composite axis')
    n = z3.simplify(x.axes[0][0])
    if z3.is_int_value(n):
      return None
    if x.ndim == 1:
      return Seq(n, lambda i: x.f(i))
    return Seq(n, lambda i: Tab(x.axes[1:], lambda *j: x.f(i, *j)))
  return None


def join(xs):
  """concatenation of sequences"""
  parts = []
  for x in xs:
    if isinstance(x, Seq):
      parts.append((x.size_, x.at))
    elif isinstance(x, Tab) and x.ndim == 1:
      parts.append((x.axes[0][0], x.f))
    elif isinstance(x, (list, tuple, np.ndarray)):
      t = from_list(x)
      if t.ndim != 1:
        raise Unsupported('concatenation')
      parts.append((t.axes[0][0], t.f))
    else:
      raise Unsupported('concatenation')
  total = z3.simplify(z3.Sum(*[n for n, _ in parts]) if len(parts) > 1 else parts[0][0])

  def at(i):
    off = z3.IntVal(0)
    for n, f in parts[:-1]:
      if z3.is_int_value(z3.simplify(n)) and z3.simplify(n).as_long() == 0:
        continue
      if pyvc.CTX.branch(i < off + n):
        return f(z3.simplify(i - off))
      off = off + n
    return parts[-1][1](z3.simplify(i - off))
  return Seq(total, at)


def as_tab(x):
  """np.array of a sequence"""
  if isinstance(x, Tab):
    return x
  if isinstance(x, Seq):
    k = fresh('row')
    c = pyvc.CTX
    keep = list(c.pc)
    c.pc = keep + [k >= 0, k < x.size_]
    try:
      cs = V.cases(lambda: x.at(k))
    except MaybeInfinite:
      cs = [([], INF)]           # a number; which one is decided where it is read
    finally:
      c.pc = keep
    inner = {len(v.axes) if isinstance(v, Tab) else 0 for _, v in cs}
    inner_t = [as_tab(v) for _, v in cs if isinstance(v, (Tab, Seq))]
    if any(isinstance(v, Seq) for _, v in cs):
      inner = {len(t.axes) for t in inner_t}
    if len(inner) != 1:
      raise Unsupported('ragged')
    if inner == {0}:
      return Tab([(x.size_,)], x.at)
    axes = inner_t[0].axes
    if k.get_id() in [y.get_id() for a in axes for d in a for y in leaves_of(d)]:
      raise Unsupported('ragged')
    return Tab([(x.size_,)] + list(axes), lambda i, *j: as_tab(x.at(i)).f(*j))
  if isinstance(x, (list, tuple)):
    return from_list(x)
  raise Unsupported(f'{type(x).__name__} as an array')


def leaves_of(e):
  if not e.children():
    return [e]
  return [y for c in e.children() for y in leaves_of(c)]


def symbolic(x, depth=0):
  if isinstance(x, (R, Tab, Seq, Infinite, pyvc.B)):
    return True
  if isinstance(x, (list, tuple)) and depth < 3:
    return any(symbolic(y, depth + 1) for y in x)
  if isinstance(x, np.ndarray) and x.dtype == object:
    return any(symbolic(y) for y in x.ravel())
  return False


# ---------------------------------------------------------------- comprehensions and loops
class Recorder:
  """one iteration of a parallel loop: what it stores and reads"""

  def __init__(self, inner=None):
    self.stores, self.reads, self.inner = [], [], inner

  def read(self, tab, cell):
    self.reads.append((tab, cell, list(pyvc.CTX.pc)))
    for t, _, _ in self.stores:
      if t is tab:
        raise Unsupported('a cell is read after a store in the same iteration')

  def store(self, tab, cell, v):
    if isinstance(v, (Tab, Seq)):
      raise Unsupported('store of a table in a cell')
    self.stores.append((tab, cell, v))


class Transform:
  """what the recompiled source calls"""

  def comp(self, f, it, *, cond=None, nest=None):
    s = seq(it)
    if s is None:
      return [f(x) for x in it]
    return Seq(s.size_, lambda i: f(s.at(i)))

  def gen(self, f, it):
    return self.comp(f, it)

  def pfor(self, body, it):
    s = it if isinstance(it, (Seq, Grid)) else seq(it)
    if s is None:
      for x in it:
        body(x)
      return
    if V.recording is not None:
      raise Unsupported('a loop over a symbolic range within another')
    sizes = s.sizes if isinstance(s, Grid) else [s.size_]
    at = s.at if isinstance(s, Grid) else (lambda i: s.at(i))
    c = pyvc.CTX

    def iteration(ts):
      """[(conditions, stores, reads)] of the iteration ts"""
      out = []

      def one():
        V.recording = Recorder()
        try:
          body(at(*ts))
          return V.recording
        finally:
          V.recording = None
      for cs, r in V.cases(one):
        out.append((cs, r.stores, r.reads))
      return out
    ts = [fresh('t') for _ in sizes]
    keep = list(c.pc)
    rng = [z3.And(t >= 0, t < n) for t, n in zip(ts, sizes)]
    c.pc = keep + rng
    try:
      found = iteration(ts)
      written = {}
      for cs, stores, _ in found:
        if len(stores) > 1:
          raise Unsupported('several stores in an iteration')
        for tab, cell, v in stores:
          written.setdefault(id(tab), (tab, []))[1].append((cs, cell))
      if len(written) > 1:
        raise Unsupported('stores into several arrays')
      if not written:
        return
      (tab, cells), = written.values()
      inv = None
      for cs, cell in cells:
        pos = [next((p for p, x in enumerate(cell) if x.get_id() == t.get_id()), None) for t in ts]
        if None in pos or (inv is not None and inv != pos):
          raise Unsupported('the cell written does not determine the iteration')
        inv = pos
      # no iteration reads what another writes
      ts2 = [fresh('t') for _ in sizes]
      sub = list(zip(ts, ts2))
      for cs, stores, reads in found:
        for rt, cell, pc in reads:
          if rt is not tab:
            continue
          for cs2, wcell in cells:
            other = [z3.substitute(x, *sub) for x in wcell]
            s2 = c.solver()
            s2.add(*pc)
            s2.add(*[z3.substitute(g, *sub) for g in rng + list(cs2)])
            s2.add(*[a == b for a, b in zip(cell, other)])
            s2.add(z3.Or(*[a != b for a, b in zip(ts, ts2)]))
            if s2.check() != z3.unsat:
              raise Unsupported('an iteration may read what another one writes')
    finally:
      c.pc = keep
    old = tab.f

    def f(*ix):
      t = [ix[p] for p in inv]
      c2 = pyvc.CTX
      now = tab.f
      tab.f = old
      try:
        rec, V.recording = V.recording, Recorder()
        try:
          inside = z3.simplify(z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(t, sizes)]))
          if not c2.branch(inside):
            return old(*ix)
          body(at(*t))
          st = V.recording.stores
        finally:
          V.recording = rec
        for tb, cell, v in st:
          if c2.branch(z3.simplify(z3.And(*[a == b for a, b in zip(cell, ix)]))):
            return v
        return old(*ix)
      finally:
        tab.f = now
    tab.f = f


class Grid:
  """np.ndindex"""

  def __init__(self, sizes):
    self.sizes = sizes

  def at(self, *ts):
    return tuple(R(t) for t in ts)

  def __iter__(self):
    raise Unsupported('iteration over a symbolic grid')


def names_in(n, ctx):
  return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


class Rewriter(ast.NodeTransformer):
  """comprehensions and loops of every function"""

  def __init__(self):
    self.n, self.inside, self.local = 0, 0, {}

  def lam(self, target, elt):
    return lambda_of(target, elt)

  def comp(self, node, kind):
    self.generic_visit(node)
    if not self.inside or len(node.generators) != 1 or node.generators[0].ifs or node.generators[0].is_async:
      return node
    g = node.generators[0]
    return ast.copy_location(ast.Call(func=ast.Attribute(ast.Name('_vc_', ast.Load()), kind, ast.Load()),
                                      args=[lambda_of(g.target, node.elt), g.iter], keywords=[]), node)

  def visit_ListComp(self, node):
    return self.comp(node, 'comp')

  def visit_GeneratorExp(self, node):
    return self.comp(node, 'gen')

  def visit_FunctionDef(self, node):
    self.inside += 1
    for x in ast.walk(node):
      if isinstance(x, ast.For):
        self.local[id(x)] = self.closed(x, node) and self.local.get(id(x), True)
    self.generic_visit(node)
    self.inside -= 1
    return node

  def closed(self, node, fn):
    """names the loop binds are not used elsewhere in the function, except where another loop or comprehension binds them"""
    bound = set().union(names_in(node.target, ast.Store), *[names_in(s, (ast.Store, ast.Del)) for s in node.body])
    aug = {x.target.id for s in node.body for x in ast.walk(s) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
    skip = {id(x) for s in node.body + [node.target] for x in ast.walk(s)}
    used = set()

    def walk(x, hidden):
      if id(x) in skip:
        return
      if isinstance(x, ast.Name) and x.id not in hidden:
        used.add(x.id)
      if isinstance(x, ast.For) and x is not node:
        h = hidden | names_in(x.target, ast.Store)
        walk(x.iter, hidden)
        for y in [x.target] + x.body:
          walk(y, h)
        for y in x.orelse:
          walk(y, hidden)
        return
      if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
        hidden = hidden | {n for g in x.generators for n in names_in(g.target, ast.Store)}
      if isinstance(x, ast.Lambda):
        hidden = hidden | {q.arg for q in x.args.args}
      for y in ast.iter_child_nodes(x):
        walk(y, hidden)
    for st in fn.body:
      walk(st, frozenset())
    return not aug and not bound & used

  def visit_For(self, node):
    ok = self.local.get(id(node), False)
    self.generic_visit(node)
    if not self.inside or node.orelse or not ok:
      return node
    if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await)) for s in node.body for x in ast.walk(s)):
      return node
    self.n += 1
    nm = f'_vc_body{self.n}'
    f = ast.parse(f'def {nm}(_vc_x):\n  pass').body[0]
    f.body = [ast.Assign(targets=[node.target], value=ast.Name('_vc_x', ast.Load()))] + node.body
    call = ast.Expr(ast.Call(func=ast.Attribute(ast.Name('_vc_', ast.Load()), 'pfor', ast.Load()),
                             args=[ast.Name(nm, ast.Load()), node.iter], keywords=[]))
    return [ast.copy_location(f, node), ast.copy_location(call, node)]


def lambda_of(target, elt):
  """lambda __x: elt with the target bound: (lambda a, b: elt)(*x) for tuples"""
  if isinstance(target, ast.Name):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=elt)
  if isinstance(target, (ast.Tuple, ast.List)):
    x = '_vc_e'
    def build(t, src, body):
      # nested tuples: one lambda per level
      names, inner = [], []
      for q, e in enumerate(t.elts):
        if isinstance(e, ast.Name):
          names.append(e.id)
        elif isinstance(e, (ast.Tuple, ast.List)):
          names.append(f'_vc_n{len(inner)}_{id(e) % 9973}')
          inner.append((e, names[-1]))
        else:
          raise Unsupported('target')
      for e, nm in inner:
        body = build(e, ast.Name(nm, ast.Load()), body)
      lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)
      return ast.Call(func=lam, args=[ast.Starred(src, ast.Load())], keywords=[])
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(x)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                      body=build(target, ast.Name(x, ast.Load()), elt))
  raise Unsupported('target')


# ---------------------------------------------------------------- builtins, np, scipy
def _len(x):
  if isinstance(x, Tab):
    return number(x.extent(0))
  if isinstance(x, Seq):
    return number(x.size_)
  return len(x)


def _range(*a):
  if not any(isinstance(x, R) for x in a):
    return range(*a)
  lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
  if len(a) == 3 and not (isinstance(a[2], int) and a[2] == 1):
    raise Unsupported('range with a step')
  lo, hi = term(lo), term(hi)
  if not (z3.is_int(lo) and z3.is_int(hi)):
    raise Unsupported('range')
  return Seq(z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0))) if not pyvc.CTX.proves(hi >= lo) else z3.simplify(hi - lo), lambda i: R(z3.simplify(lo + i)))


def _zip(*xs, strict=False):
  ss = [seq(x) for x in xs]
  if all(s is None for s in ss):
    return zip(*xs)
  ss = [seq_of_list(x) if s is None else s for s, x in zip(ss, xs)]
  for s in ss[1:]:
    if not pyvc.CTX.proves(s.size_ == ss[0].size_):
      raise Unsupported('zip of different lengths')
  return Seq(ss[0].size_, lambda i: tuple(s.at(i) for s in ss))


def seq_of_list(x):
  t = from_list(list(x))
  return Seq(t.axes[0][0], t.f)


def _enumerate(x, start=0):
  s = seq(x)
  if s is None:
    return enumerate(x, start)
  st = term(start)
  return Seq(s.size_, lambda i: (R(z3.simplify(st + i)), s.at(i)))


def _sum(x, start=0):
  s = seq(x)
  if s is None:
    return sum(x, start)
  if not (isinstance(start, (int, float)) and start == 0):
    raise Unsupported('sum')
  return V.total(s.size_, s.at)


def _list(x=()):
  return x if seq(x) is not None and (isinstance(x, (Seq, Tab))) else list(x)


def _reversed(x):
  s = seq(x)
  if s is None:
    return reversed(x)
  return Seq(s.size_, lambda i: s.at(z3.simplify(s.size_ - 1 - i)))


def _float(x=0.):
  return x if isinstance(x, R) else float(x)


class Shim:
  def __init__(self, real):
    self._real = real

  def __getattr__(self, nm):
    v = getattr(self._real, nm)
    if isinstance(v, (type, types.ModuleType)) or not callable(v):
      return v

    def f(*a, **k):
      if symbolic(list(a)) or symbolic(list(k.values())):
        raise Unsupported(f'{nm} of symbolic values')
      return v(*a, **k)
    return f


class Special(Shim):
  """scipy.special"""

  def binom(self, n, k):
    if not symbolic([n, k]):
      return self._real.binom(n, k)
    if isinstance(k, (Tab, Seq)):
      return elementwise(lambda x: self.binom(n, x), as_tab(k))
    return R(BINOM(term(n), term(k)))

  def comb(self, n, k, exact=False, repetition=False):
    if repetition:
      raise Unsupported('comb')
    return self.binom(n, k) if symbolic([n, k]) else self._real.comb(n, k, exact=exact)

  def roots_jacobi(self, n, alpha=None, beta=None, mu=False):
    if not symbolic(n):
      return self._real.roots_jacobi(n, alpha, beta, mu)
    if mu or alpha != 1 or beta != 1:
      raise Unsupported('roots of another Jacobi polynomial')
    V.family.inner(term(n))
    x = V.family.roots
    return Tab([(term(n),)], lambda i: R(x(z3.simplify(i + 1)))), Tab([(term(n),)], lambda i: R(fresh('jacobi_weight', RS)))

  def eval_legendre(self, n, x):
    if not symbolic([n, x]):
      return self._real.eval_legendre(n, x)
    if not symbolic(n) and n == 1 and isinstance(x, np.ndarray):
      return x
    if isinstance(x, (Tab, Seq)):
      x = as_tab(x)
      if x.ndim != 1:
        raise Unsupported('eval_legendre')
      return Tab(x.axes, lambda i: V.family.legendre(n, x.f(i), i))
    if isinstance(x, np.ndarray) and x.ndim == 1:
      return self.eval_legendre(n, from_list(x))
    raise Unsupported('eval_legendre')


class Np(Shim):

  def __init__(self, real):
    super().__init__(real)
    self.polynomial = types.SimpleNamespace(legendre=types.SimpleNamespace(leggauss=self.leggauss))

  def leggauss(self, deg):
    if not symbolic(deg):
      return np.polynomial.legendre.leggauss(deg)
    return V.family.gauss(term(deg))

  def linspace(self, start, stop, num=50, endpoint=True, dtype=None):
    if not symbolic([start, stop, num]):
      return np.linspace(start, stop, num=num, endpoint=endpoint, dtype=dtype)
    n, a, b = term(num), real(term(start)), real(term(stop))
    if not endpoint:
      raise Unsupported('linspace')
    V.lin = True

    def f(i):
      if pyvc.CTX.branch(n > 1):
        return R(a + real(i) * (b - a) / real(n - 1))
      return R(a)
    return Tab([(n,)], f)

  def arange(self, *a, dtype=None):
    if not symbolic(list(a)):
      return np.arange(*a, dtype=dtype)
    return as_tab(_range(*a))

  def array(self, x, dtype=None, **k):
    if not symbolic(x):
      return np.array(x, dtype=dtype, **k)
    if dtype is not None and np.dtype(dtype) != np.float64:
      raise Unsupported('conversion')
    if isinstance(x, R):
      return x
    return as_tab(x)

  asarray = array

  def vstack(self, x):
    if not symbolic(x):
      return np.vstack(x)
    t = as_tab(x)
    if t.ndim == 1:
      raise Unsupported('vstack of numbers')
    if t.ndim != 2:
      raise Unsupported('vstack')
    return t

  def stack(self, x, axis=0):
    if not symbolic(x):
      return np.stack(x, axis=axis)
    t = as_tab(x)
    axis = axis % t.ndim
    if axis == 0:
      return t
    axes = list(t.axes[1:])
    axes.insert(axis, t.axes[0])
    return Tab(axes, lambda *i: t.f(i[axis], *(i[:axis] + i[axis + 1:])))

  def concatenate(self, xs, axis=0):
    if not symbolic(list(xs)):
      return np.concatenate(xs, axis=axis)
    return as_tab(join(list(xs)))

  def hstack(self, xs):
    return self.concatenate(xs) if symbolic(list(xs)) else np.hstack(xs)

  def zeros(self, shape, dtype=float):
    return self.full(shape, 0., dtype)

  def ones(self, shape, dtype=float):
    return self.full(shape, 1., dtype)

  def full(self, shape, v, dtype=None):
    if not symbolic(shape):
      return np.full(shape, v, dtype=dtype)
    shape = shape if isinstance(shape, (tuple, list)) else (shape,)
    return Tab([(term(s),) for s in shape], lambda *i: v if isinstance(v, R) else R(real(term(v))))

  def zeros_like(self, x, dtype=None):
    return Tab(x.axes, lambda *i: R(z3.RealVal(0))) if isinstance(x, Tab) else np.zeros_like(x, dtype=dtype)

  def ones_like(self, x, dtype=None):
    return Tab(x.axes, lambda *i: R(z3.RealVal(1))) if isinstance(x, Tab) else np.ones_like(x, dtype=dtype)

  def empty(self, shape, dtype=float):
    if not symbolic(shape):
      return np.empty(shape, dtype=dtype)
    return Tab([(term(s),) for s in shape], lambda *i: R(fresh('uninitialised', RS)))

  def eye(self, n, dtype=float):
    if not symbolic(n):
      return np.eye(n, dtype=dtype)
    return Tab([(term(n),)] * 2, lambda i, j: R(z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))

  def ndindex(self, *s):
    s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
    if not symbolic(list(s)):
      return np.ndindex(*s)
    return Grid([term(x) for x in s])

  def sum(self, x, axis=None, keepdims=False):
    if not symbolic(x):
      return np.sum(x, axis=axis, keepdims=keepdims)
    return as_tab(x).sum(axis, keepdims)

  def power(self, a, b):
    if isinstance(b, (Tab, Seq)) or isinstance(a, (Tab, Seq)):
      f = lambda x, y: x ** y
      return elementwise(f, *[as_tab(x) if isinstance(x, Seq) else x for x in (a, b)])
    return a ** b if symbolic([a, b]) else np.power(a, b)

  def square(self, x):
    return x * x if symbolic(x) else np.square(x)

  def sqrt(self, x):
    if isinstance(x, Tab):
      return elementwise(root, x)
    return root(x) if symbolic(x) else np.sqrt(x)

  def multiply(self, a, b):
    return a * b

  def where(self, c, *ab):
    if not symbolic([c, *ab]):
      return np.where(c, *ab)
    if len(ab) != 2:
      raise Unsupported('where')
    f = lambda p, x, y: x if (p if isinstance(p, (bool, np.bool_)) else bool(p)) else y
    return elementwise(f, c, *ab) if any(isinstance(x, Tab) for x in (c, *ab)) else f(c, *ab)

  def kron(self, a, b):
    if not symbolic([a, b]):
      return np.kron(a, b)
    a, b = as_tab(a), as_tab(b)
    if a.ndim != b.ndim:
      raise Unsupported('kron')
    fa, fb = a.f, b.f
    na = [len(x) for x in a.axes]

    def g(*i):
      tup = lambda t: t[0] if len(t) == 1 else t
      p = [tup(x[:n]) for x, n in zip(i, na)]
      q = [tup(x[n:]) for x, n in zip(i, na)]
      return fa(*p) * fb(*q)
    return Tab([x + y for x, y in zip(a.axes, b.axes)], g)

  def outer(self, a, b):
    if not symbolic([a, b]):
      return np.outer(a, b)
    a, b = [as_tab(x).reshape(-1) if as_tab(x).ndim != 1 else as_tab(x) for x in (a, b)]
    return Tab([a.axes[0], b.axes[0]], lambda i, j: a.f(i) * b.f(j))

  def matmul(self, a, b):
    return matmul(a, b) if symbolic([a, b]) else np.matmul(a, b)

  dot = matmul

  def fill_diagonal(self, a, v):
    if not isinstance(a, Tab):
      return np.fill_diagonal(a, v)
    old = a.f

    def f(i, j):
      if pyvc.CTX.branch(i == j):
        return v.f(i) if isinstance(v, Tab) else v
      return old(i, j)
    a.f = f

  def subtract(self, a, b):
    return a - b

  class _Sub:
    def outer(self, a, b):
      return Tab([a.axes[0], b.axes[0]], lambda i, j: a.f(i) - b.f(j))


class Jnp(Np):

  def einsum(self, spec, *xs, **k):
    """sums of products; precision arguments are about rounding"""
    if not symbolic(list(xs)):
      return self._real.einsum(spec, *xs, **k)
    if not isinstance(spec, str) or '->' not in spec or '.' in spec:
      raise Unsupported('einsum')
    ins, out = spec.replace(' ', '').split('->')
    ins, xs = ins.split(','), [as_tab(x) for x in xs]
    size = {}
    for ix, x in zip(ins, xs):
      if len(ix) != x.ndim or len(set(ix)) != len(ix):
        raise Unsupported('einsum')
      for l, ax in zip(ix, x.axes):
        if l in size and (len(size[l]) != len(ax) or not pyvc.CTX.proves(z3.And(*[a == b for a, b in zip(ax, size[l])]))):
          raise Unsupported('einsum of different sizes')
        size.setdefault(l, ax)
    bound = [l for l in size if l not in out]
    return Tab([size[l] for l in out], lambda *i: nested(bound, size, dict(zip(out, i)), lambda at: _prod([x.f(*[at[l] for l in ix]) for ix, x in zip(ins, xs)])))

  def matmul(self, a, b, **k):
    if not symbolic([a, b]):
      return self._real.matmul(a, b, **k)
    a, b = as_tab(a), as_tab(b)
    if b.ndim != 1 or a.ndim > 3:
      raise Unsupported('matmul')
    return self.einsum('ijk'[:a.ndim - 1] + 'n,n->' + 'ijk'[:a.ndim - 1], a, b)

  dot = matmul

  def tensordot(self, a, b, axes=2, **k):
    if not symbolic([a, b]):
      return self._real.tensordot(a, b, axes=axes, **k)
    a, b = as_tab(a), as_tab(b)
    if isinstance(axes, int):
      axes = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    p, q = [[x] if isinstance(x, int) else list(x) for x in axes]
    la = [chr(97 + i) for i in range(a.ndim)]
    lb = [chr(110 + i) for i in range(b.ndim)]
    for x, y in zip(p, q):
      lb[y] = la[x]
    out = [l for i, l in enumerate(la) if i not in [x % a.ndim for x in p]] + [l for i, l in enumerate(lb) if i not in [y % b.ndim for y in q]]
    return self.einsum(f"{''.join(la)},{''.join(lb)}->{''.join(out)}", a, b)

  def __getattr__(self, nm):
    return Shim.__getattr__(self, nm)


def _prod(xs):
  r = xs[0]
  for x in xs[1:]:
    r = r * x
  return r


def nested(bound, size, at, f):
  """sum over the digits of the axes bound"""
  if not bound:
    return f(at)
  l, rest = bound[0], bound[1:]

  def digits(k, got):
    if k == len(size[l]):
      return nested(rest, size, dict(at, **{l: got[0] if len(got) == 1 else tuple(got)}), f)
    return V.total(size[l][k], lambda d: digits(k + 1, got + [d]))
  return digits(0, [])


def recompiled(mod, link=None):
  """the module from its current source, rewritten, on tables. link: (module, its recompiled version) already at hand"""
  src = inspect.getsource(mod)
  tree = ast.fix_missing_locations(Rewriter().visit(ast.parse(src)))
  m = types.ModuleType(mod.__name__)
  m.__dict__.update(__file__=mod.__file__, _vc_=Transform())
  exec(compile(tree, mod.__file__, 'exec'), m.__dict__)
  import jax.numpy as jnp
  import scipy.special
  own = {} if link is None else {id(v): getattr(link[1], n) for n, v in vars(link[0]).items()
                                 if getattr(v, '__module__', None) == link[0].__name__}
  for n, v in list(vars(m).items()):
    if v is np:
      setattr(m, n, Np(np))
    elif v is jnp:
      setattr(m, n, Jnp(jnp))
    elif isinstance(v, types.ModuleType) and v.__name__ == 'scipy':
      setattr(m, n, types.SimpleNamespace(special=Special(scipy.special)))
    elif isinstance(v, types.ModuleType) and v.__name__ == 'scipy.special':
      setattr(m, n, Special(v))
    elif link is not None and v is link[0]:
      setattr(m, n, link[1])
    elif id(v) in own:
      setattr(m, n, own[id(v)])
  for n, v in dict(len=_len, range=_range, zip=_zip, enumerate=_enumerate, sum=_sum, list=_list, tuple=lambda x=(): x if isinstance(x, (Seq, Tab)) else tuple(x),
                   reversed=_reversed, float=_float).items():
    m.__dict__.setdefault(n, v)
  return m


# ---------------------------------------------------------------- values of the nodes and weights
class Values:
  """an uninterpreted table of distinct (or just real) numbers, with facts about the index terms seen"""

  def __init__(self, name, size, distinct=False, each=None):
    self.fn, self.size, self.distinct, self.each = z3.Function(f'{name}', IS, RS), size, distinct, each
    self.seen = {}

  def __call__(self, i):
    self.seen[i.get_id()] = i
    return self.fn(i)

  def about(self, k):
    out = []
    ok = lambda a: z3.And(a >= 0, a < self.size)
    if self.distinct:
      out += [z3.Implies(z3.And(ok(a), ok(k), self.fn(a) == self.fn(k)), a == k) for a in self.seen.values()]
    if self.each:
      out.append(z3.Implies(ok(k), self.each(k)))
    return out

  def facts(self):
    xs = list(self.seen.values())
    ok = lambda a: z3.And(a >= 0, a < self.size)
    out = []
    if self.distinct:
      out += [z3.Implies(z3.And(ok(a), ok(b), self.fn(a) == self.fn(b)), a == b) for a, b in itertools.combinations(xs, 2)]
    if self.each:
      out += [z3.Implies(ok(a), self.each(a)) for a in xs]
    return out

  def tab(self):
    return Tab([(self.size,)], lambda i: R(self(i)))


def session(body, pc=()):
  """runs body(vc, module) on all paths of its own conditions; returns the number of conditions proved"""
  global V
  from swirl_fem.core import interpolation as mod
  vc = VC()
  vc.pc0 = list(pc)
  saved, V = V, vc
  try:
    m = recompiled(mod)

    def go():
      body(vc, m)
    n = len(vc.cases(go))
  finally:
    V = saved
  return f'{vc.nobl} verification conditions on {n} paths'


def use(vc, *vals):
  for v in vals:
    vc.tabs.append(v)
    vc.insts.append(v.facts)


def lemmas(name='Nodal'):
  """lean/<name>.lean: accepted, without sorry"""
  path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lean', name + '.lean')
  exe = shutil.which('lean') or next((p for p in sorted(glob.glob('/app/lean4*/build/release/stage1/bin/lean')) if os.access(p, os.X_OK)), 'lean')
  try:
    r = subprocess.run([exe, path], capture_output=True, text=True, timeout=140)
  except (FileNotFoundError, subprocess.TimeoutExpired) as e:
    raise Unsupported(f'lean: {e}')
  out = r.stdout + r.stderr
  if r.returncode or 'sorry' in out or 'error' in out:
    raise Unsupported(f'lean: {out[:500]}')
  n = open(path).read().count('\ntheorem ')
  return f'{n} theorems'


def refuted(fn):
  """for canaries: an entry not shown counts as refuted"""
  def f():
    try:
      return fn()
    except Unsupported as e:
      if 'not shown' in str(e):
        raise Failed(str(e))
      raise
  return f


# ---------------------------------------------------------------- contracts
N, Q = z3.Int('n'), z3.Int('q')


def interpolator(vc, m, ndim, n=N, q=Q):
  """the class with symbolic nodes, points and weights (its callee by contract: nonzero)"""
  x, y = Values('x', n, distinct=True), Values('y', q)
  w = Values('w', n, each=lambda k: w.fn(k) != 0)
  use(vc, x, y, w)
  T = m.NodeType
  g = m.Nodes1D(num_points=R(n), node_type=T.GAUSS_LEGENDRE, node_values=x.tab())
  e = m.Nodes1D(num_points=R(q), node_type=T.SINGLE, node_values=y.tab())
  m.BarycentricInterpolator._barycentric_weights = lambda self: w.tab()
  return m.BarycentricInterpolator(ndim=ndim, gridpoints_1d=g, evalpoints_1d=e), x, y, w


SIZES = [N >= 1, Q >= 1]


def shape2(t, a, b, what):
  if not isinstance(t, Tab) or t.ndim != 2 or any(len(x) != 1 for x in t.axes):
    raise Unsupported(f'{what}: not a matrix')
  if not pyvc.CTX.proves(z3.And(t.axes[0][0] == a, t.axes[1][0] == b)):
    raise Unsupported(f'not shown: shape of {what}')


def interp_contract(wrong=False):
  """the interpolation matrix: second barycentric form away from the nodes, a row of the identity at a node"""
  def body(vc, m):
    c = pyvc.CTX
    it, x, y, w = interpolator(vc, m, 1)
    M = it._interpolation_matrix_1d()
    shape2(M, Q, N, 'the interpolation matrix')
    i, j = z3.Ints('point node')
    c.assume(z3.And(i >= 0, i < Q, j >= 0, j < N))
    case = c.choose([('away', z3.BoolVal(True)), ('node', z3.BoolVal(True))], 'case')
    if case == 'away':
      away = lambda k: y.fn(i) != x.fn(k)
      x.each = away
      x(j)
      S = vc.total(N, lambda k: R(w(k)) / (R(y(i)) - R(x(k))))
      c.assume(S.e != 0)                     # Nodal.interp_entry
      got = real(term(vc.value(lambda: M.f(i, j))))
      want = (w(j) / (y(i) - x(j))) / S.e
      vc.prove(got == (want if not wrong else -want), 'an entry away from the nodes is the barycentric form')
    else:
      mm = z3.Int('at')
      c.assume(z3.And(mm >= 0, mm < N, y(i) == x(mm)))
      v = vc.value(lambda: M.f(i, j))
      if v is INF:
        raise Unsupported('an infinite entry')
      vc.prove(real(v.e) == z3.If(mm == j, z3.RealVal(1), z3.RealVal(0)), 'a row at a node is a row of the identity')
  return session(body, SIZES)


def diff_contract(wrong=False):
  """the differentiation matrix: formulas (9.4), (9.5)"""
  def body(vc, m):
    c = pyvc.CTX
    it, x, y, w = interpolator(vc, m, 1)
    D = it._differentiation_matrix_1d()
    shape2(D, N, N, 'the differentiation matrix')
    i, j = z3.Ints('i j')
    c.assume(z3.And(i >= 0, i < N, j >= 0, j < N))
    x(i), x(j), w(i), w(j)
    ent = lambda a, b: (R(w(b)) / R(w(a))) / (R(x(a)) - R(x(b)))
    if c.choose([(True, i != j), (False, i == j)], 'case'):
      got = vc.value(lambda: D.f(i, j))
      want = vc.value(lambda: ent(i, j))
      vc.prove(real(got.e) == (real(want.e) if not wrong else -real(want.e)), 'an entry off the diagonal')
    else:
      got = vc.value(lambda: D.f(i, i))

      def off(k):
        if pyvc.CTX.branch(k == i):
          return R(z3.RealVal(0))
        return ent(i, k)
      S = vc.total(N, off)
      vc.prove(real(got.e) == -S.e, 'an entry of the diagonal')
  return session(body, SIZES)


def tensor_contract(ndim, grad, wrong=False):
  """the matrices in ndim dimensions: products of the one-dimensional ones, last axis fastest"""
  def body(vc, m):
    c = pyvc.CTX
    it, *_ = interpolator(vc, m, ndim)
    A, D = z3.Function('A', IS, IS, RS), z3.Function('D', IS, IS, RS)
    m.BarycentricInterpolator._interpolation_matrix_1d = lambda self: Tab([(Q,), (N,)], lambda i, j: R(A(i, j)))
    m.BarycentricInterpolator._differentiation_matrix_1d = lambda self: Tab([(N,), (N,)], lambda i, j: R(D(i, j)))
    M = it.interpolation_matrix_grad() if grad else it.interpolation_matrix()
    if not isinstance(M, Tab) or M.ndim != (3 if grad else 2) or [len(a) for a in M.axes[:2]] != [ndim, ndim]:
      raise Unsupported('not a matrix of tensor products')
    for a, n in ((0, Q), (1, N)):
      if not all(c.proves(d == n) for d in M.axes[a]):
        raise Unsupported('not shown: shape of the matrix')
    if grad and not (len(M.axes[2]) == 1 and c.proves(M.axes[2][0] == ndim)):
      raise Unsupported('not shown: shape of the gradient')
    qs, ps = [z3.Int(f'q{a}') for a in range(ndim)], [z3.Int(f'p{a}') for a in range(ndim)]
    for a in qs:
      c.assume(z3.And(a >= 0, a < Q))
    for a in ps:
      c.assume(z3.And(a >= 0, a < N))
    tup = lambda t: t[0] if len(t) == 1 else tuple(t)
    for k in range(ndim if grad else 1):
      got = vc.value(lambda: M.f(tup(qs), tup(ps), *([z3.IntVal(k)] if grad else [])))
      want = z3.RealVal(1)
      for a in range(ndim):
        f = lambda q, p: A(q, p)
        if grad and (a == k if not wrong else a == ndim - 1 - k):
          f = lambda q, p: vc.total(N, lambda s: R(A(q, s)) * R(D(s, p))).e
        want = want * f(qs[a], ps[a])
      vc.prove(real(got.e) == want, f'component {k} is the product over the axes')
  return session(body, SIZES)


class Family:
  """what numpy and scipy promise about the nodes of a family"""

  def __init__(self, vc, kind, n):
    self.vc, self.kind, self.n = vc, kind, n
    lo, hi = (-1, 1)
    P = self.P = Values('P' if kind == 'gll' else 'dP', n, each=lambda k: self.P.fn(k) != 0)
    inside = (lambda k: z3.And(self.roots.fn(k) > -1, self.roots.fn(k) < 1)) if kind == 'gl' else (
        lambda k: z3.And(z3.Implies(k == 0, self.roots.fn(k) == -1), z3.Implies(k == n - 1, self.roots.fn(k) == 1),
                         z3.Implies(z3.And(k > 0, k < n - 1), z3.And(self.roots.fn(k) > -1, self.roots.fn(k) < 1))))
    self.roots = Ascending('root', n, inside)
    self.om = Values('omega', n, each=lambda k: z3.And(
        self.om.fn(k) > 0, self.om.fn(k) * (1 - self.roots.fn(k) * self.roots.fn(k)) * P.fn(k) * P.fn(k) == 2))
    use(vc, self.roots, self.P)
    if kind == 'gl':
      use(vc, self.om)

  # leggauss(n): ascending zeros of P_n, weights 2 / ((1 - x^2) P_n'(x)^2)
  def gauss(self, n):
    if self.kind != 'gl' or not pyvc.CTX.proves(n == self.n):
      raise Unsupported('a Gauss rule of another size')

    def om(i):
      self.roots(i), self.P(i)
      return R(self.om(i))
    return self.roots.tab(), Tab([(self.n,)], om)

  # roots_jacobi(n - 2, 1, 1): ascending zeros of P_{n-1}', all in (-1, 1)
  def inner(self, n):
    if self.kind != 'gll' or not pyvc.CTX.proves(n == self.n - 2):
      raise Unsupported('inner nodes of another number')

  # P_{n-1} at the nodes
  def legendre(self, n, x, i):
    e = term(n)
    if self.kind != 'gll' or not pyvc.CTX.proves(e == self.n - 1):
      raise Unsupported('another Legendre polynomial')
    self.roots(i)
    if not pyvc.CTX.proves(real(term(x)) == self.roots.fn(i)):
      raise Unsupported('a Legendre polynomial away from the nodes')
    return R(self.P(i))


class Ascending(Values):

  def __init__(self, name, size, each):
    super().__init__(name, size, each=each)

  def order(self, a, b):
    ok = z3.And(a >= 0, a < self.size, b >= 0, b < self.size)
    return z3.Implies(ok, z3.And((a < b) == (self.fn(a) < self.fn(b)), (a == b) == (self.fn(a) == self.fn(b))))

  def about(self, k):
    return super().about(k) + [self.order(a, k) for a in self.seen.values()]

  def facts(self):
    return super().facts() + [self.order(a, b) for a, b in itertools.combinations(list(self.seen.values()), 2)]


MIN = dict(nc=1, gl=1, gll=2)


def family(vc, m, kind):
  T = m.NodeType
  vc.family = Family(vc, kind, N)
  return dict(nc=T.NEWTON_COTES, gl=T.GAUSS_LEGENDRE, gll=T.GAUSS_LOBATTO_LEGENDRE)[kind]


def nodes_contract(kind, wrong=False):
  """Nodes1D.create: the nodes of the family, in order"""
  def body(vc, m):
    c = pyvc.CTX
    t = family(vc, m, kind)
    g = m.Nodes1D.create(num_points=R(N), node_type=t)
    if not isinstance(g.node_values, Tab) and c.proves(N == 2):
      v = as_tab(list(np.asarray(g.node_values, float)))
    else:
      v = as_tab(g.node_values)
    if v.ndim != 1 or not c.proves(z3.And(v.axes[0][0] == N, term(g.num_points) == N)) or g.node_type != t:
      raise Unsupported('not shown: number of nodes')
    i = z3.Int('i')
    c.assume(z3.And(i >= 0, i < N))
    vc.family.roots(i)
    got = real(term(vc.value(lambda: v.f(i))))
    if kind == 'nc':
      if c.branch(N > 1):
        vc.prove(got * real(N - 1) == -real(N - 1) + (2 if not wrong else 1) * real(i), 'equally spaced nodes from -1 to 1')
        j = z3.Int('j')
        c.assume(z3.And(j > i, j < N))
        at = lambda k: real(term(vc.value(lambda: v.f(k))))
        vc.prove(z3.And(got >= -1, got <= 1, got < at(j), got + at(N - 1 - i) == 0), 'ascending and symmetric')
      else:
        vc.prove(got == -1, 'a single equispaced node')
    else:
      vc.prove(got == vc.family.roots.fn(i), 'the nodes of the family in ascending order, with the ends if it has them')
  return session(body, [N >= MIN[kind]])


def quad_contract(kind, wrong=False):
  """Quadrature1D: weights of the family on its nodes"""
  def body(vc, m):
    c = pyvc.CTX
    t = family(vc, m, kind)
    if kind == 'nc':
      g = m.Nodes1D(num_points=R(N), node_type=t, node_values=Tab([(N,)], lambda i: R(-1 + 2 * real(i) / real(N - 1))))
    else:
      g = m.Nodes1D(num_points=R(N), node_type=t, node_values=vc.family.roots.tab())
    q = m.Quadrature1D.create_from_nodes_1d(g)
    w = as_tab(q.weights)
    if q.nodes is not g or q.quadrature_type != t or not c.proves(z3.And(term(q.num_points) == N, w.axes[0][0] == N)):
      raise Unsupported('not shown: number of weights')
    i = z3.Int('i')
    c.assume(z3.And(i >= 0, i < N))
    vc.family.roots(i), vc.family.P(i)
    got = real(term(vc.value(lambda: w.f(i))))
    if kind == 'nc':
      vc.prove(got * real(N - 1) == z3.If(z3.Or(i == 0, i == N - 1), z3.RealVal(1 if not wrong else 2), z3.RealVal(2)), 'the composite trapezoidal rule')
      return
    x, P = vc.family.roots.fn(i), vc.family.P.fn(i)
    if kind == 'gl':
      vc.family.om(i)
      vc.prove(got * (1 - x * x) * P * P == (2 if not wrong else 1), 'the weights 2 / ((1 - x^2) P_n\'(x)^2)')
    else:
      vc.prove(got * (real(N) * real(N - 1)) * P * P == (2 if not wrong else 1), 'the weights 2 / (n (n-1) P_{n-1}(x)^2)')
    vc.prove(got > 0, 'positive weights')
    # Quadrature.symmetric, and Legendre polynomials are even or odd
    r, F = N - 1 - i, vc.family
    F.roots(r), F.P(r), F.om(r) if kind == 'gl' else None
    c.assume(z3.And(F.roots.fn(r) == -x, F.P.fn(r) * F.P.fn(r) == P * P))
    vc.prove(got == real(term(vc.value(lambda: w.f(r)))), 'symmetric weights')
  return session(body, [N >= 2 if kind != 'gl' else N >= 1])


def weights_contract(kind, wrong=False):
  """_barycentric_weights: the form lean/Nodal.lean asks for"""
  def body(vc, m):
    c = pyvc.CTX
    t = family(vc, m, kind)
    x = Tab([(N,)], lambda i: R(-1 + 2 * real(i) / real(N - 1))) if kind == 'nc' else vc.family.roots.tab()
    g = m.Nodes1D(num_points=R(N), node_type=t, node_values=x)
    w = as_tab(m.BarycentricInterpolator(1, g, g)._barycentric_weights())
    if w.ndim != 1 or not c.proves(w.axes[0][0] == N):
      raise Unsupported('not shown: number of weights')
    i, j = z3.Ints('i j')
    c.assume(z3.And(i >= 0, i < N, j >= 0, j < N))
    F = vc.family
    for k in (i, j):
      F.roots(k), F.P(k), F.om(k) if kind == 'gl' else None
      sgn(k)
    wi, wj = [real(term(vc.value(lambda k=k: w.f(k)))) for k in (i, j)]
    if kind == 'nc':
      # Nodal.equispaced
      bi, bj = SGN(i) * BINOM(N - 1, i), SGN(j) * BINOM(N - 1, j)
      if wrong:
        bi = BINOM(N - 1, i)
      c.fact('binom', z3.And(BINOM(N - 1, i) > 0, BINOM(N - 1, j) > 0))
      vc.prove(z3.And(wi * bj == wj * bi, wi != 0), 'alternating binomial coefficients, up to a factor')
    else:
      # Nodal.gauss, Nodal.lobatto
      ui, uj = wi * SGN(i), wj * SGN(j)
      Pi, Pj = F.P.fn(i), F.P.fn(j)
      vc.prove(z3.Or(z3.And(ui > 0, uj > 0), z3.And(ui < 0, uj < 0)) if not wrong else z3.And(wi > 0, wj > 0), 'alternating signs')
      scale = 2 / (real(N) * real(N - 1)) if kind == 'gll' else z3.RealVal(2)
      if all(c.proves(u * u * P * P == scale) for u, P in ((ui, Pi), (uj, Pj))):
        vc.nobl += 1
        return
      vc.prove(ui * ui * Pi * Pi == uj * uj * Pj * Pj, 'weights inversely proportional to the polynomial of the family')
  return session(body, [N >= MIN[kind]])


def create_contract(kind):
  """Quadrature1D.create: the rule on the nodes of the family"""
  def body(vc, m):
    c = pyvc.CTX
    t = family(vc, m, kind)
    nodes = Values('x', N)
    use(vc, nodes)
    made = []

    def create(num_points, node_type):
      if node_type != t or not c.proves(term(num_points) == N):
        raise Unsupported('not shown: other nodes')
      made.append(m.Nodes1D(num_points=num_points, node_type=node_type, node_values=nodes.tab()))
      return made[-1]

    def rule(g):
      if not made or g is not made[-1]:
        raise Unsupported('not shown: a rule on other nodes')
      made.append(object())
      return made[-1]
    m.Nodes1D.create = create
    m.Quadrature1D.create_from_nodes_1d = rule
    q = m.Quadrature1D.create(R(N), t)
    vc.nobl += 1
    if q is not made[-1]:
      raise Unsupported('not shown: another rule')
  return session(body, [N >= MIN[kind]])


def nd_weights_contract(ndim):
  """weights_nd: products in tensor-product order"""
  def body(vc, m):
    c = pyvc.CTX
    w = Values('w', N)
    use(vc, w)
    q = m.Quadrature1D(num_points=R(N), quadrature_type=None, nodes=None, weights=w.tab())
    W = q.weights_nd(ndim)
    if not isinstance(W, Tab) or W.ndim != 1 or len(W.axes[0]) != ndim or not all(c.proves(d == N) for d in W.axes[0]):
      raise Unsupported('not shown: shape')
    ix = [z3.Int(f'i{a}') for a in range(ndim)]
    for a in ix:
      c.assume(z3.And(a >= 0, a < N))
    got = real(term(vc.value(lambda: W.f(tuple(ix) if ndim > 1 else ix[0]))))
    want = z3.RealVal(1)
    for a in ix:
      want = want * w(a)
    vc.prove(got == want, 'products of the weights')
  return session(body, [N >= 1])


def interpolate_contract(ndim, grad, wrong=False):
  """interpolate, interpolate_grad: the matrix applied to the values, or the values themselves on the same nodes"""
  def body(vc, m):
    c = pyvc.CTX
    it, x, y, w = interpolator(vc, m, ndim)
    same = c.choose([(True, z3.BoolVal(True)), (False, z3.BoolVal(True))], 'node types') if not grad else False
    if same:
      it.evalpoints_1d = m.Nodes1D(num_points=R(Q), node_type=it.gridpoints_1d.node_type, node_values=y.tab())
    A, u = z3.Function('A', *[IS] * (2 * ndim), RS), z3.Function('u', *[IS] * ndim, RS)
    G = [z3.Function(f'G{k}', *[IS] * (2 * ndim), RS) for k in range(ndim)]
    one = lambda i: i if isinstance(i, tuple) else (i,)
    rows, cols = tuple([Q] * ndim), tuple([N] * ndim)

    def comp(i, j, k):
      k = z3.simplify(k)
      r = R(G[ndim - 1](*one(i), *one(j)))
      for a in reversed(range(ndim - 1)):
        r = R(z3.If(k == a, G[a](*one(i), *one(j)), r.e))
      return r
    m.BarycentricInterpolator.interpolation_matrix = lambda self: Tab([rows, cols], lambda i, j: R(A(*one(i), *one(j))))
    m.BarycentricInterpolator.interpolation_matrix_grad = lambda self: Tab([rows, cols, (z3.IntVal(ndim),)], comp)
    tab = Tab([cols], lambda i: R(u(*one(i))))
    got = it.interpolate_grad(tab) if grad else it.interpolate(tab)
    same = same and c.proves(N == Q)
    if not isinstance(got, Tab) or got.ndim != 1 + grad or not all(c.proves(d == Q) for d in got.axes[0]) or len(got.axes[0]) != ndim:
      raise Unsupported('not shown: shape of the values')
    if grad and not (len(got.axes[1]) == 1 and c.proves(got.axes[1][0] == ndim)):
      raise Unsupported('not shown: shape of the gradient')
    qs = [z3.Int(f'q{a}') for a in range(ndim)]
    for a in qs:
      c.assume(z3.And(a >= 0, a < Q))
    tup = lambda t: t[0] if len(t) == 1 else tuple(t)
    for k in range(ndim if grad else 1):
      v = real(term(vc.value(lambda: got.f(tup(qs), *([z3.IntVal(k)] if grad else [])))))
      if same:
        # the rows of the matrix are those of the identity (the contract of _interpolation_matrix_1d at a node)
        want = u(*qs)
      else:
        M = (lambda j: G[k](*qs, *one(j))) if grad else (lambda j: A(*qs, *one(j)))
        want = nested(['p'], dict(p=cols), {}, lambda at: R(M(at['p'])) * R(u(*one(at['p'])) if not wrong else M(at['p']))).e
      vc.prove(v == want, 'the matrix applied to the values')
  return session(body, SIZES)


def coeffs_contract(name, wrong=False):
  """extk_coeffs, bdfk_coeffs: values and scaled derivatives of the Lagrange basis of k + 1 equispaced nodes"""
  from swirl_fem.core import interpolation as mod
  from swirl_fem.navier_stokes import navier_stokes as ns
  K = z3.Int('k')

  def body(vc, m):
    c = pyvc.CTX
    L, D = z3.Function('basis', RS, IS, RS), z3.Function('basis_derivative', RS, IS, RS)
    vc.family = Family(vc, 'nc', K + 1)

    def table(self, f):
      g, e = self.gridpoints_1d, self.evalpoints_1d
      # the contract of the class is about its nodes: those of K + 1 equispaced points
      if not isinstance(self.ndim, int) or self.ndim != 1 or not c.proves(term(g.num_points) == K + 1):
        raise Unsupported('another interpolator')
      x = as_tab(g.node_values) if isinstance(g.node_values, (Tab, Seq)) else from_list(g.node_values)
      i = fresh('i')
      if not c.proves(x.axes[0][0] == K + 1):
        raise Unsupported('not shown: number of nodes')
      keep = c.pc
      c.pc = list(keep) + [i >= 0, i < K + 1]
      vc.prove(real(term(vc.value(lambda: x.f(i)))) * real(K) == -real(K) + 2 * real(i), 'equally spaced nodes from -1 to 1')
      c.pc = keep
      y = as_tab(e.node_values) if isinstance(e.node_values, (Tab, Seq, list)) else from_list(e.node_values)
      return Tab([y.axes[0], (K + 1,)], lambda q, j: R(f(real(term(y.f(q))), j)))
    B = m.BarycentricInterpolator
    B.interpolation_matrix = B._interpolation_matrix_1d = lambda self: table(self, L)
    B.interpolation_matrix_grad = lambda self: table(self, D)[..., None]
    n = recompiled(ns, (mod, m))
    v = getattr(n, name)(R(K))
    if not isinstance(v, Tab) or v.ndim != 1 or not c.proves(z3.And(*[v.axes[0][0] == K + 1, len(v.axes[0]) == 1])):
      raise Unsupported('not shown: number of coefficients')
    j = z3.Int('j')
    c.assume(z3.And(j >= 0, j < K + 1))
    got = real(term(vc.value(lambda: v.f(j))))
    h = 2 / real(K)
    if name == 'extk_coeffs':
      want = L(1 + h, j)
    else:
      want = h * D(z3.RealVal(1), j)
    if wrong:
      want = want * 2
    vc.prove(got == want, 'the coefficients are those of the Lagrange basis')
  return session(body, [K >= 1])

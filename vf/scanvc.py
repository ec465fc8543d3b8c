"""Mapped-axis programs of /repo for every axis size, from their Python source.

The functions of pscan.py and the methods of SemiTracedScalar are run as they are (loops recompiled by vf/pyvc.instrument,
cut at invariants); jnp, np and lax are represented by contracts on *device functions*: a value on the mapped axis is a
function of the device number d (a z3 term in d). An array over the axis that the host sees (`global_`) and the value each
device sees (`local`) are both such functions; mixing the two is not accepted.

Data are words of the free monoid over the letters x_0 .. x_{n-1} of each leaf: the empty word, the words x_i..x_{j-1} of
consecutive letters (exact), or anything else (never equal to what the contracts ask for).

Loop rule for a schedule loop (`while`): the groups of level l are two functions B(l, .), N(l, .) (first member and number
of members of the group of a device). Invariant: the groups are consecutive intervals that partition the axis; every
iteration appends one schedule entry per list and strictly shrinks the groups with more than one member. The entry of level
l is whatever the code computed, as a function of B(l, .), N(l, .).
Loop rule for loops over the schedule (reversed: towards the root; from entry 1 on: towards the leaves): for every carried
list of data the invariants, among those below, that hold before the loop are checked for an arbitrary iteration.
  up:   red   group heads of level l hold the word of their group; heads of right halves the word of the right half
        scan  the head of a right half (at a level done) holds the word of the left half; device 0 the empty word
        last  the head of a right half of the last level done holds the word of the left half
  down: scan  group heads of level l hold the word of all letters before them; heads of right halves still to come as above
        red   group heads of level l hold the word of all letters
An invariant that is not inductive refutes nothing: Unsupported, and the bounded stand-in decides.
"""
import contextlib
import inspect
import os
import itertools
import numpy as np
import z3
from vf.core import Failed, Unsupported
from vf import pyvc

I = z3.IntSort()
SIZE = z3.Int('axis_size')
BF, NF = z3.Function('B', I, I, I), z3.Function('N', I, I, I)
Word = z3.Datatype('Word')
Word.declare('E')
Word.declare('w', ('leaf', I), ('lo', I), ('hi', I))
Word.declare('bad')
Word = Word.create()
D0 = z3.Int('d!')           # the device a recorded term is about
L0 = z3.Int('l!')           # the level a recorded schedule entry is about
_c = itertools.count()


def fresh(nm):
  return z3.Int(f'{nm}!{next(_c)}')


def concat(a, b):
  W = Word
  return z3.If(W.is_E(a), b, z3.If(W.is_E(b), a, z3.If(
      z3.And(W.is_w(a), W.is_w(b), W.leaf(a) == W.leaf(b), W.hi(a) == W.lo(b)), W.w(W.leaf(a), W.lo(a), W.hi(b)), W.bad)))


class Dev:
  """A value on the mapped axis: device -> term. kind 'local' (each device its own) or 'global' (an array over the axis)."""
  __array_priority__ = 1000

  def __init__(self, f, kind, dtype=None, data=None, shape=()):
    self.f, self.kind, self.dtype, self.data, self.shape = f, kind, dtype, data, shape

  def at(self, d):
    return self.f(d)

  @property
  def sort(self):
    return self.f(D0).sort()

  def max(self):
    return AxisMax(self)

  def any(self):
    return Some(self)

  def all(self):
    return Every(self)

  def __bool__(self):
    raise Unsupported('truth value of a value on the axis')

  def __iter__(self):
    # only for any(... for x in v), all(...), max(...): one arbitrary device stands for all of them
    if self.kind != 'global':
      raise Unsupported('iteration over a device value')
    return Each(self)

  def __hash__(self):
    return id(self)

  def astype(self, t):
    if self.data is None:
      return self
    r = Dev(self.f, self.kind, np.dtype(t), self.data, self.shape)
    if self.data == 'count':                     # the number of true devices, as a truth value: their disjunction
      if np.dtype(t) != np.bool_:
        raise Unsupported('conversion of a count')
      r.data = 'word'
    elif np.dtype(t) != self.dtype:
      raise Unsupported(f'conversion of data from {self.dtype} to {t}')
    return r

  @property
  def size(self):
    raise Unsupported('size of a value on the axis')


class Each:
  consumer = False

  def __init__(self, v):
    self.v, self.done = v, False

  def __iter__(self):
    return self

  def __next__(self):
    if not Each.consumer:
      raise Unsupported('iteration over the axis')
    if self.done:
      raise StopIteration
    self.done = True
    return self.v


def consume(real, f):
  """a builtin that folds over an iterable, on values of the axis"""
  import types

  def g(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], (types.GeneratorType, Dev)):
      keep, Each.consumer = Each.consumer, True
      try:
        xs = list(a[0])
      finally:
        Each.consumer = keep
      if len(xs) == 1 and isinstance(xs[0], Dev):
        return f(xs[0])
      return real(xs)
    return real(*a, **k)
  return g


def const(x):
  if isinstance(x, pyvc.Z):
    return x.e
  if isinstance(x, pyvc.B):
    return x.e
  if isinstance(x, (bool, np.bool_)):
    return z3.BoolVal(bool(x))
  if isinstance(x, (int, np.integer)):
    return z3.IntVal(int(x))
  if z3.is_expr(x):
    return x
  return None


def lift(fn, *xs):
  """fn on terms, pointwise over the axis"""
  kinds = {x.kind for x in xs if isinstance(x, Dev)}
  if len(kinds) != 1:
    raise Unsupported('local and global values mixed')
  if any(isinstance(x, Dev) and x.data is not None for x in xs):
    raise Unsupported('arithmetic on the data outside the given operation')
  cs = [None if isinstance(x, Dev) else const(x) for x in xs]
  for x, c in zip(xs, cs):
    if not isinstance(x, Dev) and c is None:
      raise Unsupported(f'{type(x).__name__} combined with a value on the axis')
  return Dev(lambda d: fn(*[x.f(d) if isinstance(x, Dev) else c for x, c in zip(xs, cs)]), kinds.pop())


def boolish(e):
  return e if z3.is_bool(e) else e != 0


def intish(e):
  return z3.If(e, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(e) else e


def _floordiv(a, b):
  b = z3.simplify(b)
  if not z3.is_int_value(b) or b.as_long() <= 0:
    raise Unsupported('division by something other than a positive number')
  return intish(a) / b


def _mod(a, b):
  b = z3.simplify(b)
  if not z3.is_int_value(b) or b.as_long() <= 0:
    raise Unsupported('division by something other than a positive number')
  return intish(a) % b


def _shift(a, b, left):
  b = z3.simplify(b)
  if not z3.is_int_value(b) or b.as_long() < 0:
    raise Unsupported('shift by something other than a number')
  return intish(a) * 2 ** b.as_long() if left else intish(a) / 2 ** b.as_long()


def _bit(op):
  def f(a, b):
    if z3.is_bool(a) and z3.is_bool(b):
      return op(a, b)
    raise Unsupported('bit operation on integers')
  return f


BIN = dict(
    add=lambda a, b: intish(a) + intish(b), sub=lambda a, b: intish(a) - intish(b), mul=lambda a, b: intish(a) * intish(b),
    floordiv=_floordiv, mod=_mod, lshift=lambda a, b: _shift(a, b, True), rshift=lambda a, b: _shift(a, b, False),
    **{'and': _bit(z3.And), 'or': _bit(z3.Or), 'xor': _bit(z3.Xor)})
CMP = dict(lt=lambda a, b: intish(a) < intish(b), le=lambda a, b: intish(a) <= intish(b), gt=lambda a, b: intish(a) > intish(b),
           ge=lambda a, b: intish(a) >= intish(b), eq=lambda a, b: intish(a) == intish(b), ne=lambda a, b: intish(a) != intish(b))
for _n, _f in BIN.items():
  setattr(Dev, f'__{_n}__', lambda a, b, f=_f: lift(f, a, b))
  setattr(Dev, f'__r{_n}__', lambda a, b, f=_f: lift(f, b, a))
for _n, _f in CMP.items():
  setattr(Dev, f'__{_n}__', lambda a, b, f=_f: lift(f, a, b))
Dev.__invert__ = lambda s: lift(lambda a: z3.Not(boolish(a)) if z3.is_bool(a) else -a - 1, s)
Dev.__neg__ = lambda s: lift(lambda a: -intish(a), s)


def vmax(a, b):
  return lift(lambda x, y: z3.If(intish(x) > intish(y), intish(x), intish(y)), a, b)


def vmin(a, b):
  return lift(lambda x, y: z3.If(intish(x) < intish(y), intish(x), intish(y)), a, b)


class Some:
  """truth value of: some device has p"""

  def __init__(self, p):
    self.p = p
    if p.kind != 'global':
      raise Unsupported('a decision of the host on device values')

  def __bool__(self):
    c = pyvc.CTX
    d = fresh('some')
    yes = z3.And(d >= 0, d < SIZE, boolish(self.p.f(d)))
    r = c.choose([(True, yes), (False, None)], 'some')
    if not r:
      c.every.append(lambda e, p=self.p: z3.Not(boolish(p.f(e))))
    else:
      c.somes.append(d)
    return r


class Every:

  def __init__(self, p):
    self.no = Some(~p)

  def __bool__(self):
    return not bool(self.no)


class AxisMax:
  """largest value over the axis; only comparisons that say 'some device ...' or 'every device ...'"""

  def __init__(self, v):
    self.v = v

  def __gt__(self, c):
    return bool(Some(self.v > c))

  def __ge__(self, c):
    return bool(Some(self.v >= c))

  def __le__(self, c):
    return not (self > c)

  def __lt__(self, c):
    return not (self >= c)

  def __ne__(self, c):
    # (used as `max != 1` where no value is below 1)
    return bool(Some(self.v != c))

  def __eq__(self, c):
    return not (self != c)


# ---------------------------------------------------------------- schedules
def tree_map(f, x):
  if isinstance(x, Dev):
    return f(x)
  if isinstance(x, dict):
    return {k: tree_map(f, v) for k, v in x.items()}
  if type(x) in (list, tuple):
    return type(x)(tree_map(f, v) for v in x)
  if hasattr(x, 'local') and hasattr(x, 'global_'):
    return type(x)(local=tree_map(f, x.local), global_=tree_map(f, x.global_))
  if x is None or isinstance(x, (int, float, str, bool, pyvc.Z)):
    return x
  raise Unsupported(f'{type(x).__name__} in a schedule')


class Sched:
  """A list with one entry per level; `length` levels; in the schedule loop, `new` is what the iteration appended."""

  def __init__(self, var, length, item=None):
    self.var, self.length, self.item, self.new = var, length, item, []

  def append(self, x):
    if self.item is not None:
      raise Unsupported('append to a finished schedule')
    self.new.append(x)

  def __iadd__(self, xs):
    for x in xs:
      self.append(x)
    return self

  def done(self):
    if self.item is None:
      raise Unsupported('the schedule is read while it is written')

  def entry(self, l):
    self.done()

    def at(v):
      t = v.f(D0)

      def f(d):
        r = z3.substitute(t, (L0, l if z3.is_expr(l) else z3.IntVal(l)), (D0, d))
        return r
      return Dev(f, v.kind, v.dtype, v.data, v.shape)
    return tree_map(at, self.item)

  def __len__(self):
    raise Unsupported('length of a schedule as a number')

  def size(self):
    self.done()
    return pyvc.Z(self.length)

  def __bool__(self):
    self.done()
    return pyvc.CTX.branch(self.length > 0)

  def __getitem__(self, k):
    self.done()
    if isinstance(k, slice):
      if k.step in (None, 1) and k.stop is None and isinstance(k.start, (int, type(None))) and (k.start or 0) >= 0:
        return View(self, k.start or 0, False)
      if k.step == -1 and k.start is None and (k.stop is None or k.stop >= 0):
        return View(self, 0 if k.stop is None else k.stop + 1, True)
      raise Unsupported('slice of a schedule')
    if isinstance(k, int) and k >= 0:
      if not pyvc.CTX.valid(self.length > k):
        raise Unsupported('the schedule may be shorter than that')
      return self.entry(z3.IntVal(k))
    if isinstance(k, pyvc.Z):
      if not pyvc.CTX.valid(z3.And(k.e >= 0, k.e < self.length)):
        raise Unsupported('the schedule may be shorter than that')
      return self.entry(k.e)
    raise Unsupported('element of a schedule')

  def __reversed__(self):
    return View(self, 0, True)

  def __iter__(self):
    return View(self, 0, False)


def srange(levels):
  """range(...) over the levels of the schedule"""
  def f(*a):
    if all(isinstance(x, (int, np.integer)) for x in a):
      return range(*a)
    e = [const(x) for x in a]
    start, stop, step = (z3.IntVal(0), e[0], z3.IntVal(1)) if len(e) == 1 else (e[0], e[1], e[2] if len(e) == 3 else z3.IntVal(1))
    v = pyvc.CTX.valid
    if v(step == 1) and v(stop == levels):
      s = z3.simplify(start)
      if z3.is_int_value(s) and s.as_long() >= 0:
        return View(None, s.as_long(), False, index=True)
    if v(z3.And(step == -1, start == levels - 1)):
      s = z3.simplify(stop)
      if z3.is_int_value(s) and s.as_long() >= -1:
        return View(None, s.as_long() + 1, True, index=True)
    raise Unsupported('a range that is not over the schedule')
  return f


class View:
  def __init__(self, s, start, rev, index=False):
    self.index = index
    if s is not None:
      s.done()
    self.s, self.start, self.rev = s, start, rev

  def __iter__(self):
    return self

  def __next__(self):
    raise Unsupported('a schedule is walked outside a loop')


# ---------------------------------------------------------------- loops
class Prover(pyvc.Loops):

  def __init__(self, dtypes, spec_bug=False):
    super().__init__()
    self.dtypes = dtypes
    self.steps = {}            # loop -> what the arbitrary iteration established
    self.nobl = 0
    self.memo = {}
    self.L = z3.Int('levels')

  # -- facts about the levels, as instances
  def groups(self, l, d, e, B=None, N=None):
    B, N = B or (lambda x: BF(l, x)), N or (lambda x: NF(l, x))
    ok = lambda x: z3.And(x >= 0, x < SIZE)
    own = lambda x: z3.And(B(x) >= 0, B(x) <= x, x < B(x) + N(x), B(x) + N(x) <= SIZE)
    return z3.Implies(z3.And(ok(d), ok(e)), z3.And(own(d), own(e), z3.Implies(
        z3.And(B(d) <= e, e < B(d) + N(d)), z3.And(B(e) == B(d), N(e) == N(d)))))

  def facts(self, levels, devs):
    """instances of everything known about the finished schedule"""
    k = (tuple(x.get_id() for x in levels), tuple(x.get_id() for x in devs), self.newB.get_id(), self.newN.get_id())
    if k not in self.memo:
      self.memo[k] = (self.instances(levels, devs), levels, devs, self.newB, self.newN)
    fs = list(self.memo[k][0])
    for d in devs:
      for g in pyvc.CTX.every:
        fs.append(z3.Implies(z3.And(d >= 0, d < SIZE), g(d)))
    return fs

  def instances(self, levels, devs):
    E0, M0 = z3.Int('e!'), z3.Int('m!')
    if getattr(self, 'tmpl_of', None) is not self.newB:
      self.tmpl_of = self.newB
      l, d, m, e = L0, D0, M0, E0
      ok = z3.And(d >= 0, d < SIZE)
      self.tmpl = (
          z3.Implies(z3.And(l >= 0, l <= self.L), self.groups(l, d, e)),
          z3.And(
              z3.Implies(z3.And(l >= 0, l < self.L, ok), z3.And(
                  BF(l + 1, d) == self.newB, NF(l + 1, d) == self.newN,
                  z3.Implies(self.H(l, d), BF(l + 1, d) == d),
                  z3.Implies(BF(l, d) == d, z3.And(BF(l + 1, d) == d, z3.Not(self.H(l, d)))),
                  z3.Implies(BF(l + 1, d) == d, z3.Or(BF(l, d) == d, self.H(l, d))))),
              z3.Implies(ok, z3.And(BF(0, d) == 0, NF(0, d) == SIZE))),
          # heads stay heads, and a head is not the head of a right half (by induction over the levels from the lines above)
          z3.And(z3.Implies(z3.And(ok, l >= 0, m > l, m < self.L, self.H(l, d)), z3.Not(self.H(m, d))),
                 z3.Implies(z3.And(ok, l >= 0, m >= l, m <= self.L, BF(l, d) == d), BF(m, d) == d)))
    fs = [self.L >= 0, SIZE >= 1]
    for l in levels:
      for d in devs:
        fs += [z3.substitute(self.tmpl[0], (L0, l), (D0, d), (E0, e)) for e in devs]
        fs.append(z3.substitute(self.tmpl[1], (L0, l), (D0, d)))
        fs += [z3.substitute(self.tmpl[2], (L0, l), (D0, d), (M0, m)) for m in levels if not m.eq(l)]
    return fs

  def sub(self, t, l, d):
    k = (t.get_id(), l.get_id(), d.get_id())
    if k not in self.memo:
      self.memo[k] = (z3.substitute(t, (L0, l), (D0, d)), t, l, d)    # keeps the terms alive: ids stay unique
    return self.memo[k][0]

  def H(self, l, d):
    """d is the head of the right half of a group that is split at level l: defined by the groups, not by the code"""
    return z3.And(self.sub(self.newB, l, d) == d, BF(l, d) != d)

  def prove(self, goal, facts, what):
    s = z3.Solver()
    s.set('timeout', 30000)
    s.add(*pyvc.CTX.pc)
    s.add(*facts)
    s.add(z3.Not(goal))
    r = s.check()
    self.nobl += 1
    if r != z3.unsat:
      raise Unsupported(f'not inductive: {what}' if r == z3.sat else f'z3 unknown: {what}')

  def holds(self, goal, facts):
    q = [*pyvc.CTX.pc, *facts, z3.Not(goal)]
    k = tuple(x.get_id() for x in q)
    if k not in self.memo:
      s = z3.Solver()
      s.set('timeout', 10000)
      s.add(*q)
      self.memo[k] = (s.check() == z3.unsat, q)
    return self.memo[k][0]

  # -- the schedule loop
  def is_sts(self, v):
    return hasattr(v, 'local') and hasattr(v, 'global_') and not isinstance(v, Dev)

  def sts(self, like, f):
    return type(like)(local=Dev(f, 'local'), global_=Dev(f, 'global'))

  def build(self, k, loc, names):
    """roles of the carried variables of the schedule loop"""
    st = {}
    role = {}
    d = fresh('d')
    rng = [d >= 0, d < SIZE, SIZE >= 1]
    for x in names:
      if x not in loc:
        continue
      v = loc[x]
      if self.is_sts(v):
        loc_, glo = self.at(v.local, d), self.at(v.global_, d)
        for nm, want in (('head', z3.IntVal(0)), ('size', SIZE)):
          if self.holds(z3.And(intish(loc_) == want, intish(glo) == want), rng):
            role[x] = nm
            break
        else:
          raise Unsupported(f'role of {x} in the schedule loop')
      elif isinstance(v, list) and not v:
        role[x] = 'list'
      else:
        raise Unsupported(f'{x} is carried by the schedule loop')
    if sorted(r for r in role.values() if r != 'list') != ['head', 'size'] or 'list' not in role.values():
      raise Unsupported('carried variables of the schedule loop')
    # the groups before the loop: one group
    self.prove(self.groups(None, d, fresh('e'), lambda x: z3.IntVal(0), lambda x: SIZE), rng, 'one group of all devices')
    return role

  def at(self, v, d):
    return v.f(d) if isinstance(v, Dev) else const(v)

  def entry(self, k, it, loc, names):
    if it is None:
      if pyvc.CTX.built or getattr(self, 'bk', k) != k:
        raise Unsupported('two schedule loops')
      pyvc.CTX.built, self.bk = True, k
      self.mark = len(pyvc.CTX.pc)
      role = self.build(k, loc, names)
      l = L0
      pyvc.CTX.assume(z3.And(l >= 0, SIZE >= 1))
      self.cur = dict(kind='build', role=role, loc=loc)
      return {x: self.sts(loc[x], (lambda d: BF(l, d)) if r == 'head' else (lambda d: NF(l, d))) if r != 'list' else Sched(x, None)
              for x, r in role.items()}
    if isinstance(it, View):
      return self.data_entry(k, it, loc, names)
    if isinstance(it, Sched):
      return self.data_entry(k, iter(it), loc, names)
    raise Unsupported('a loop over something else than a schedule')

  def element(self, k, it):
    if it is None:
      return None
    if self.cur['it'].index:
      return pyvc.Z(self.cur['l'])
    return self.cur['s'].entry(self.cur['l'])

  def step(self, k, loc):
    if self.cur['kind'] != 'build':
      return self.data_step(k, loc)
    l, role = L0, self.cur['role']
    if k in self.steps:
      raise Unsupported('several paths through the schedule loop')
    d, e = D0, fresh('e')
    new = {r: loc[x] for x, r in role.items() if r != 'list'}
    for x, r in role.items():
      if r != 'list' and not self.is_sts(loc[x]):
        raise Unsupported(f'{x} after an iteration')
    rng = [d >= 0, d < SIZE, e >= 0, e < SIZE]
    tb, tn = self.at(new['head'].global_, d), self.at(new['size'].global_, d)
    at = lambda t, x: z3.substitute(t, (D0, x))
    old = [self.groups(l, a, b) for a in (d, e, at(tb, e), at(tb, d)) for b in (d, e, at(tb, e), at(tb, d))]
    every = [g(x) for x in (d, e) for g in pyvc.CTX.every]
    self.prove(z3.And(self.at(new['head'].local, d) == tb, self.at(new['size'].local, d) == tn), rng + old + every,
               'a device and the host agree on the groups')
    self.prove(self.groups(None, d, e, lambda x: at(tb, x), lambda x: at(tn, x)), rng + old + every, 'the groups are intervals and a partition')
    self.prove(z3.And(tn <= NF(l, d), z3.Implies(NF(l, d) > 1, tn < NF(l, d)), tn >= 1), rng + old + every, 'the groups shrink')
    self.prove(z3.Implies(BF(l, d) == d, tb == d), rng + old + every, 'heads stay heads')
    items = {}
    for x, r in role.items():
      if r == 'list':
        if not isinstance(loc[x], Sched) or len(loc[x].new) != 1:
          raise Unsupported('entries per iteration')
        items[x] = loc[x].new[0]
    self.steps[k] = (items, tb, tn)

  def exit(self, k, it, loc, names):
    if self.cur['kind'] != 'build':
      return self.data_exit(k, it, loc, names)
    if k not in self.steps:
      raise Unsupported('no path through the schedule loop')
    items, self.newB, self.newN = self.steps[k]
    role = self.cur['role']
    del pyvc.CTX.pc[self.mark:]           # the assumptions on the arbitrary iteration
    pyvc.CTX.assume(z3.And(self.L >= 0, SIZE >= 1))
    st = {}
    for x, r in role.items():
      if r == 'list':
        st[x] = Sched(x, self.L, items[x])
      else:
        f = BF if r == 'head' else NF
        st[x] = self.sts(self.cur['loc'][x], lambda d, f=f: f(self.L, d))
    return st

  # -- loops over the schedule
  def leaves(self, v, path=()):
    """(path, Dev) of the data in a value, or None where there is something else"""
    if isinstance(v, Dev):
      return [(path, v)] if v.data is not None else None
    if type(v) in (list, tuple):
      out = []
      for i, x in enumerate(v):
        q = self.leaves(x, path + (i,))
        if q is None:
          return None
        out += q
      return out
    return None

  def rebuild(self, v, f, path=()):
    if isinstance(v, Dev):
      return f(path, v)
    return type(v)(self.rebuild(x, f, path + (i,)) for i, x in enumerate(v))

  def inv(self, which, p, val, l, d, m):
    """instance of an invariant of leaf p with cursor l for device d (and level m): val = the device's datum"""
    w = Word.w
    ok = z3.And(d >= 0, d < SIZE)
    P = z3.IntVal(p)
    right = lambda m: w(P, BF(m, d), d)
    if which == 'up red':
      return z3.And(z3.Implies(z3.And(ok, BF(l, d) == d), val == w(P, d, d + NF(l, d))),
                    z3.Implies(z3.And(ok, l < self.L, self.H(l, d)), val == w(P, d, d + NF(l + 1, d))))
    if which == 'up scan':
      return z3.And(z3.Implies(z3.And(ok, m >= l, m < self.L, self.H(m, d)), val == right(m)),
                    z3.Implies(d == 0, val == Word.E))
    if which == 'up last':
      return z3.Implies(z3.And(ok, l < self.L, self.H(l, d)), val == right(l))
    if which == 'down scan':
      return z3.And(z3.Implies(z3.And(ok, BF(l, d) == d), val == z3.If(d == 0, Word.E, w(P, 0, d))),
                    z3.Implies(z3.And(ok, m >= l, m < self.L, self.H(m, d)), val == right(m)))
    if which == 'down red':
      return z3.Implies(z3.And(ok, BF(l, d) == d), val == w(P, 0, SIZE))
    raise KeyError(which)

  def data_entry(self, k, it, loc, names):
    up = it.rev
    if up and it.start != 0:
      raise Unsupported('a loop over a part of the schedule, backwards')
    first = self.L if up else (z3.IntVal(0) if it.start == 0 else z3.If(self.L >= it.start, z3.IntVal(it.start), self.L))
    cands = ('up red', 'up scan') if up else ('down scan', 'down red')
    d, m = fresh('d'), fresh('m')
    fs = self.facts([first, m, z3.IntVal(0), z3.IntVal(1), self.L], [d, z3.IntVal(0)])
    fs += [a(x, q) for a in pyvc.CTX.known for x in (d, z3.IntVal(0)) for q in (m, z3.IntVal(0))]
    carried, chosen = {}, {}
    for x in names:
      if x not in loc:
        continue
      v = loc[x]
      if isinstance(v, (Sched, View)):
        raise Unsupported('the schedule changes in a loop over it')
      ls = self.leaves(v)
      if ls is None:
        # nothing is known about it in an arbitrary iteration; None: see `up last`
        carried[x] = 'none' if v is None else 'other'
        continue
      carried[x] = 'data'
      for path, leaf in ls:
        if os.environ.get('VF_SCAN'):
          print(x, path, [(c, self.holds(self.inv(c, path[-1] if path else 0, leaf.f(d), first, d, m), fs)) for c in cands])
        got = [c for c in cands if self.holds(self.inv(c, path[-1] if path else 0, leaf.f(d), first, d, m), fs)]
        chosen[x, path] = got
      if not any(chosen[x, path] for path, _ in ls):
        carried[x] = 'other'
    l = fresh('l')
    self.cur = dict(kind='data', up=up, it=it, first=first, carried=carried, chosen=chosen, l=l, s=it.s, loc=loc, k=k, mark=len(pyvc.CTX.pc))
    # state of an arbitrary iteration: the cursor before it is l+1 (up), l (down)
    pyvc.CTX.assume(z3.And(l >= 0, l < self.L) if up else z3.And(l >= first, l < self.L))
    return self.havoc(l + 1 if up else l)

  def havoc(self, cursor):
    c, st = self.cur, {}
    c['assumed'] = []
    for x, kind in c['carried'].items():
      if kind == 'data':
        def mk(path, leaf, x=x):
          R = z3.Function(f'{x}{"".join(map(str, path))}!{next(_c)}', I, Word)
          p = path[-1] if path else 0
          for inv in c['chosen'][x, path]:
            c['assumed'].append(lambda d, m, inv=inv, p=p, R=R: self.inv(inv, p, R(d), cursor, d, m))
          return Dev(lambda d: R(d), leaf.kind, leaf.dtype, 'word', leaf.shape)
        st[x] = self.rebuild(c['loc'][x], mk)
      elif kind == 'none' or kind == 'other':
        st[x] = Unknown()
    return st

  def devices(self, d, perms, levels):
    """d and where its data come from"""
    out = [d, z3.IntVal(0)]
    for t in perms:
      out.append(t(d))
    return out

  def permutation(self, t):
    if not hasattr(self, 'newB') or not pyvc.CTX.built:
      raise Unsupported('an exchange without a schedule')
    d, e = fresh('d'), fresh('e')
    levels = [z3.IntVal(0), self.L] + ([self.cur['l']] if self.cur['kind'] == 'data' else [])
    ok = [d >= 0, d < SIZE, e >= 0, e < SIZE]
    self.prove(z3.And(t(d) >= 0, t(d) < SIZE, z3.Implies(t(d) == t(e), d == e)), self.facts(levels, [d, e, t(d), t(e)]) + ok,
               'the exchange is a permutation')

  def data_step(self, k, loc):
    c = self.cur
    l, up = c['l'], c['up']
    cursor = l if up else l + 1
    d, m = fresh('d'), fresh('m')
    perms = pyvc.CTX.perms
    devs = self.devices(d, perms, None)
    devs += [BF(l, d)]
    fs = self.facts([l, l + 1, m, z3.IntVal(0), self.L], devs)
    fs += [a(x, q) for a in c['assumed'] for x in devs for q in (m, l, l + 1)]
    for x, kind in c['carried'].items():
      if kind == 'other':
        continue
      new = loc[x]
      ls = self.leaves(new)
      if kind == 'data':
        old = self.leaves(c['loc'][x])
        if ls is None or [q for q, _ in ls] != [q for q, _ in old]:
          raise Unsupported(f'{x} changes its structure')
        for (path, leaf), (_, o) in zip(ls, old):
          if leaf.dtype != o.dtype or leaf.shape != o.shape:
            raise Unsupported(f'{x} changes its type')
          for inv in c['chosen'][x, path]:
            self.prove(self.inv(inv, path[-1] if path else 0, leaf.f(d), cursor, d, m), fs, f'{inv} for {x}')
      elif ls is not None and up:
        got = all(self.holds(self.inv('up last', path[-1] if path else 0, leaf.f(d), cursor, d, m), fs) for path, leaf in ls)
        if self.steps.setdefault(('last', k, x), [new, got])[1] != got:
          raise Unsupported('the last value of a loop depends on the path')
    self.steps[k] = True

  def data_exit(self, k, it, loc, names):
    c = self.cur
    if k not in self.steps:
      # no iteration is possible in this state (the schedule is too short)
      if not self.holds(z3.BoolVal(False), [z3.And(c['l'] >= 0, c['l'] < self.L, c['l'] >= c['first'])] if not c['up'] else [c['l'] >= 0, c['l'] < self.L]):
        raise Unsupported('no path through a loop over the schedule')
    del pyvc.CTX.pc[c['mark']:]
    last = z3.IntVal(0) if c['up'] else self.L
    st = self.havoc(last)
    for a in c['assumed']:
      pyvc.CTX.known.append(a)
    for x, kind in c['carried'].items():
      if kind == 'none' and c['up']:
        if not pyvc.CTX.branch(self.L > 0):
          st[x] = None
        elif ('last', k, x) in self.steps:
          v, got = self.steps['last', k, x]

          def mk(path, leaf, x=x, got=got):
            R = z3.Function(f'{x}{"".join(map(str, path))}!{next(_c)}', I, Word)
            if got:
              pyvc.CTX.known.append(lambda d, m, p=path[-1] if path else 0, R=R: self.inv('up last', p, R(d), z3.IntVal(0), d, m))
            return Dev(lambda d: R(d), leaf.kind, leaf.dtype, 'word', leaf.shape)
          st[x] = self.rebuild(v, mk)
    pyvc.CTX.perms.clear()
    return st


class Unknown:
  """a value about which nothing is known"""

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    raise Unsupported('a value from an earlier iteration is used')

  def __iter__(self):
    raise Unsupported('a value from an earlier iteration is used')

  def __getitem__(self, k):
    raise Unsupported('a value from an earlier iteration is used')

  def __bool__(self):
    raise Unsupported('a value from an earlier iteration is used')


# ---------------------------------------------------------------- contracts of jax and numpy
class SymOp:
  """The operation: equal to the jnp function it stands for; on data it concatenates words."""

  def __init__(self, real):
    self.real = real
    self.__name__ = getattr(real, '__name__', 'op')

  def __hash__(self):
    return hash(self.real)

  def __eq__(self, o):
    return o is self or o is self.real

  def __ne__(self, o):
    return not self == o

  def __call__(self, a, b):
    for x in (a, b):
      if not isinstance(x, Dev) or x.data != 'word' or x.kind != 'local':
        raise Unsupported(f'operation on {type(x).__name__}')
    if a.dtype != b.dtype or a.shape != b.shape:
      raise Unsupported('operation on data of different types')
    return Dev(lambda d: concat(a.f(d), b.f(d)), 'local', a.dtype, 'word', a.shape)


def where(c, x, y):
  if isinstance(c, Dev) and any(isinstance(v, Dev) and v.data is not None for v in (x, y)):
    if not all(isinstance(v, Dev) and v.data == 'word' for v in (x, y)) or c.kind != 'local' or x.dtype != y.dtype:
      raise Unsupported('where on data')
    return Dev(lambda d: z3.If(boolish(c.f(d)), x.f(d), y.f(d)), 'local', x.dtype, 'word', x.shape)
  def pick(c, a, b):
    if z3.is_bool(a) != z3.is_bool(b):
      a, b = intish(a), intish(b)
    return z3.If(boolish(c), a, b)
  if not any(isinstance(v, Dev) for v in (c, x, y)):
    return pyvc.Z(pick(const(c), const(x), const(y)))
  return lift(pick, c, x, y)


def is_size(n):
  e = const(n)
  return e is not None and (e.eq(SIZE) or pyvc.CTX.valid(e == SIZE))


def arange(n, *a, **k):
  if a or not is_size(n):
    raise Unsupported('arange')
  return Dev(lambda d: d, 'global')


def full(shape, fill_value, *a, **k):
  s = shape if isinstance(shape, (tuple, list)) else (shape,)
  if len(s) != 1 or not is_size(s[0]):
    raise Unsupported('full')
  c = const(fill_value)
  if c is None:
    raise Unsupported('full')
  return Dev(lambda d: c, 'global')


class Lax:
  """contracts of the collectives on axis 'i'"""

  def __init__(self, vc, op, dtypes, axis):
    self.vc, self.op, self.dtypes, self.axis = vc, op, dtypes, axis

  def ax(self, axis_name):
    if axis_name != self.axis:
      raise Unsupported('another axis')

  def axis_index(self, axis_name):
    self.ax(axis_name)
    return Dev(lambda d: d, 'local')

  def axis_size(self, axis_name):
    self.ax(axis_name)
    return pyvc.Z(SIZE)

  def reduce(self, x, axis_name, ops):
    import jax
    self.ax(axis_name)

    def one(v):
      if isinstance(v, (int, np.integer)) and int(v) == 1 and 'add' in ops:
        return pyvc.Z(SIZE)
      if not isinstance(v, Dev) or v.data != 'word' or v.kind != 'local':
        raise Unsupported('reduction')
      import jax.numpy as jnp
      d, q = fresh('d'), z3.Int('leaf!')
      names = [n for n in ops if self.op == getattr(jnp, n)]
      p = self.letter(v)
      if not names or p is None:
        return Dev(lambda d: Word.bad, 'local', v.dtype, 'word', v.shape)
      # psum of booleans counts them
      if v.dtype == np.bool_ and 'add' in names:
        return Dev(lambda d: Word.w(p, 0, SIZE), 'local', np.dtype(int), 'count', v.shape)
      return Dev(lambda d: Word.w(p, 0, SIZE), 'local', v.dtype, 'word', v.shape)
    return jax.tree_util.tree_map(one, x)

  def letter(self, v):
    t = v.f(D0)
    for p in range(len(self.dtypes)):
      if z3.is_true(z3.simplify(t == Word.w(p, D0, D0 + 1))):
        return p
    return None

  def psum(self, x, axis_name):
    return self.reduce(x, axis_name, ('add',))

  def pmax(self, x, axis_name):
    return self.reduce(x, axis_name, ('maximum',))

  def pmin(self, x, axis_name):
    return self.reduce(x, axis_name, ('minimum',))

  def pshuffle(self, x, axis_name, perm):
    """device i receives the datum of device perm[i]; perm must be a permutation"""
    import jax
    self.ax(axis_name)
    if not isinstance(perm, Dev) or perm.kind != 'global' or perm.data is not None:
      raise Unsupported('permutation')
    t = lambda d: intish(perm.f(d))
    self.vc.permutation(t)
    pyvc.CTX.perms.append(t)

    def one(v):
      if not isinstance(v, Dev) or v.data != 'word' or v.kind != 'local':
        raise Unsupported('exchange of something else than data')
      return Dev(lambda d: v.f(t(d)), 'local', v.dtype, 'word', v.shape)
    return jax.tree_util.tree_map(one, x)

  def cond(self, pred, t, f, *ops):
    import jax
    a, b = t(*ops), f(*ops)
    if not isinstance(pred, Dev):
      p = pyvc.CTX.branch(boolish(const(pred)))
      return a if p else b
    if pred.kind != 'local' or jax.tree_util.tree_structure(a) != jax.tree_util.tree_structure(b):
      raise Unsupported('cond')
    return jax.tree_util.tree_map(lambda x, y: where(pred, x, y), a, b)

  def select(self, c, x, y):
    return where(c, x, y)

  def __getattr__(self, n):
    raise Unsupported(f'lax.{n}')


class Np:
  """numpy / jax.numpy on device functions; other names as they are"""

  def __init__(self, real, unit=None, op=None):
    self._real, self._unit, self._op = real, unit, op

  where = staticmethod(where)
  arange = staticmethod(arange)
  full = staticmethod(full)
  max = staticmethod(lambda v, *a: AxisMax(v) if isinstance(v, Dev) else Unsupported)
  amax = max
  maximum_ = staticmethod(vmax)

  def any(self, v):
    return v if isinstance(v, bool) else Some(v)

  def all(self, v):
    return v if isinstance(v, bool) else Every(v)

  def logical_and(self, a, b):
    return lift(lambda x, y: z3.And(boolish(x), boolish(y)), a, b)

  def logical_or(self, a, b):
    return lift(lambda x, y: z3.Or(boolish(x), boolish(y)), a, b)

  def logical_not(self, a):
    return lift(lambda x: z3.Not(boolish(x)), a)

  def asarray(self, v, *a, **k):
    return v if isinstance(v, (Dev, pyvc.Z)) else self._real.asarray(v, *a, **k)
  array = asarray

  def result_type(self, v):
    return v.dtype if isinstance(v, Dev) else self._real.result_type(v)

  def full_like(self, a, fill_value, dtype=None):
    if not isinstance(a, Dev) or a.data != 'word' or (dtype is not None and np.dtype(dtype) != a.dtype):
      raise Unsupported('full_like')
    return Dev(self._unit(fill_value, a.dtype), a.kind, a.dtype, 'word', a.shape)

  def zeros_like(self, a, dtype=None):
    return self.full_like(a, 0 if a.dtype != np.bool_ else False, dtype)

  def ones_like(self, a, dtype=None):
    return self.full_like(a, 1 if a.dtype != np.bool_ else True, dtype)

  def full_(self, *a, **k):
    raise Unsupported('full')

  def broadcast_to(self, *a, **k):
    raise Unsupported('broadcast_to')

  def __getattr__(self, n):
    v = getattr(self._real, n)
    return self._op if self._op is not None and v is self._op.real else v


@contextlib.contextmanager
def patched(vc, op, dtypes, axis, unit):
  """the modules of /repo with the contracts in place and their loops cut"""
  import jax.numpy as jnp
  from swirl_fem.communication import pscan as mod, semi_traced_scalar as sts
  lax = Lax(vc, op, dtypes, axis)

  def as_unit(u, dtype):
    if np.ndim(u) or not np.asarray(u).astype(dtype) == np.asarray(unit[str(dtype)]):
      return lambda d: Word.bad
    return lambda d: Word.E
  J, P = Np(jnp, as_unit, op), Np(np, as_unit)
  toint = lambda x=0, *a: x if isinstance(x, (pyvc.Z, Dev)) else int(x, *a)
  saved = []

  def put(m, n, v):
    saved.append((m, n, m.__dict__.get(n, saved)))
    setattr(m, n, v)
  try:
    for m in (mod, sts):
      for n, v in list(vars(m).items()):
        if v is jnp:
          put(m, n, J)
        elif v is np:
          put(m, n, P)
        elif getattr(v, '__name__', None) == 'jax.lax':
          put(m, n, lax)
        elif isinstance(v, dict) and not n.startswith('__') and any(k is op.real for k in v):
          put(m, n, {op if k is op.real else k: w for k, w in v.items()})
      put(m, 'int', toint)
      put(m, 'len', lambda x: x.size() if isinstance(x, Sched) else len(x))
      put(m, 'range', srange(vc.L))
      put(m, 'any', consume(any, Some))
      put(m, 'all', consume(all, Every))
      put(m, 'max', consume(max, AxisMax))
    k = 0
    for n, f in list(vars(mod).items()):
      if inspect.isfunction(f) and f.__module__ == mod.__name__:
        sub = Sub(vc, n)
        g = pyvc.instrument(f, sub)
        if g.vc_loops:
          g.__globals__.update({})
          put(mod, n, Bound(g, mod))
    yield mod
  finally:
    for m, n, v in reversed(saved):
      if v is saved:
        delattr(m, n)
      else:
        setattr(m, n, v)


class Bound:
  """a recompiled function that looks up the module's names at each call (instrument copied them)"""

  def __init__(self, g, mod):
    self.g, self.mod = g, mod

  def __call__(self, *a, **k):
    keep = self.g.__globals__['__vc']
    self.g.__globals__.update({n: v for n, v in vars(self.mod).items() if not n.startswith('__')})
    self.g.__globals__['__vc'] = keep
    return self.g(*a, **k)


class Sub:
  """the loops of one function: their numbers made unique"""

  def __init__(self, vc, name):
    self.vc, self.name = vc, name

  def enter(self, k, *a):
    return self.vc.enter((self.name, k), *a)

  def iterate(self, k, it):
    return self.vc.iterate((self.name, k), it)

  def end(self, k, *a):
    return self.vc.end((self.name, k), *a)

  def left(self, k):
    return self.vc.left((self.name, k))

  def infeasible(self, k):
    return self.vc.infeasible((self.name, k))


def verify(kind, opname, dtypes, unit, wrong=False):
  """pscan (kind 'scan'), pscan with reduction ('both'), preduce ('reduce') with the named operation, for every axis size"""
  import jax, jax.numpy as jnp
  op = SymOp(getattr(jnp, opname))
  vc = Prover(dtypes)
  ends = [0]
  dtypes = [np.dtype(t) if t != 'bfloat16' else jnp.dtype(t) for t in dtypes]

  def run(ctx):
    global _c
    _c = itertools.count()          # the same names on every path
    ctx.every, ctx.somes, ctx.perms, ctx.known, ctx.built = [], [], [], [], False
    with patched(vc, op, dtypes, 'i', unit) as mod:
      xs = [Dev(lambda d, p=p: Word.w(p, d, d + 1), 'local', t, 'word') for p, t in enumerate(dtypes)]
      tree = dict(p=xs[0], q=tuple(xs[1:]))
      ctx.assume(SIZE >= 1)
      if kind == 'reduce':
        out = mod.preduce(tree, op, axis_name='i')
      else:
        out = mod.pscan(tree, op, axis_name='i', **(dict(reduction=True) if kind == 'both' else {}))
    want = (tree, tree) if kind == 'both' else tree
    fl, td = jax.tree_util.tree_flatten(out)
    if td != jax.tree_util.tree_structure(want):
      raise Unsupported(f'structure of the result: {td}')
    d, m = fresh('d'), fresh('m')
    ok = [d >= 0, d < SIZE]
    fs = list(ok)
    if hasattr(vc, 'newB'):
      Z = z3.IntVal(0)
      fs += vc.facts([Z, Z + 1, m, vc.L], [d, Z])
      fs += [a(x, q) for a in ctx.known for x in (d, Z) for q in (m, Z)]
    fs = [z3.simplify(f) for f in fs]
    n = len(dtypes)
    for k, o in enumerate(fl):
      p = k % n
      if not isinstance(o, Dev) or o.data != 'word' or o.dtype != dtypes[p] or o.kind != 'local':
        raise Unsupported('type of the result')
      if kind == 'scan' or (kind == 'both' and k < n):
        spec = z3.If(d == 0, Word.E, Word.w(p, 0, d + 1 if wrong else d))
      else:
        spec = Word.w(p, 0, SIZE - 1 if wrong else SIZE)
      vc.prove(o.f(d) == spec, fs, f'leaf {p} of the result')
    ends[0] += 1
  paths = pyvc.explore(run, limit=200)
  if not ends[0]:
    raise Unsupported('no path reaches the end')
  return f'{vc.nobl} verification conditions on {paths} paths'

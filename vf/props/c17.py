"""C17: scalars with local and global views keep the two views in agreement."""
NOTE = ('Representation invariant local == global_[axis index], proved to be preserved by every operation: the operands are opaque terms '
        '(any axis size, any value), the real method is run on them and both views of the result must be the same operation of the same '
        'operands in the same order. The two leaves that depend on the axis size are evaluated for every axis size up to a bound; by '
        'induction over expressions the invariant holds for every expression.')
TECHNIQUE = ('representation invariant discharged by parametric execution of the real methods on opaque operands (term equality), '
             'induction over expressions; leaves per axis size')

import itertools, operator
import numpy as np
from vf.core import Failed, Unsupported

OPS = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lshift', 'rshift', 'and', 'xor', 'or']
CMP = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
MIRROR = dict(lt='gt', gt='lt', le='ge', ge='le', eq='eq', ne='ne')
F = ['SemiTracedScalar.' + f for f in ('where', 'axis_index', 'axis_size', 'constant')] + ['_lift_op', '_lift_ops', '_add_ops', '_add_comparisons']


CONSTS = [3, 0, 1, -2, True, 2 ** 20 + 1, 2.0, .5, -1.5, np.int32(3), np.int64(2), np.float32(.5), np.float64(4.)]


class T:
  """An opaque operand: records the operation applied to it."""
  __array_priority__ = 1000
  __hash__ = object.__hash__

  def __init__(self, *t):
    self.t = t

  def __array_ufunc__(self, uf, method, *a, **k):
    if method != '__call__' or k:
      raise Unsupported(f'ufunc {uf} {method}')
    nm = {'subtract': 'sub', 'multiply': 'mul', 'true_divide': 'truediv', 'divide': 'truediv', 'floor_divide': 'floordiv',
          'remainder': 'mod', 'power': 'pow', 'left_shift': 'lshift', 'right_shift': 'rshift', 'bitwise_and': 'and',
          'bitwise_xor': 'xor', 'bitwise_or': 'or', 'less': 'lt', 'less_equal': 'le', 'equal': 'eq', 'not_equal': 'ne',
          'greater': 'gt', 'greater_equal': 'ge'}.get(uf.__name__, uf.__name__)
    return mk(nm, *a)

  def __array_function__(self, fn, types, a, k):
    if fn is np.where and len(a) == 3 and not k:
      return T('where', *[key(x) for x in a])
    raise Unsupported(f'numpy.{fn.__name__} of an opaque operand')

  def __bool__(self):
    raise Unsupported('the truth value of an opaque operand is used')


def key(x):
  if isinstance(x, T):
    return x.t
  if isinstance(x, (bool, int, float, np.generic)) or isinstance(x, np.ndarray) and x.ndim == 0:
    return ('c', 'bool' if isinstance(x, (bool, np.bool_)) else 'int' if isinstance(x, (int, np.integer)) else 'float', float(x))
  raise Unsupported(f'operand {x!r}')


def mk(name, a, b):
  return T(name, key(a), key(b))


for _o in OPS:
  setattr(T, f'__{_o}__', lambda s, o, _o=_o: mk(_o, s, o))
  setattr(T, f'__r{_o}__', lambda s, o, _o=_o: mk(_o, o, s))
for _o in CMP:
  setattr(T, f'__{_o}__', lambda s, o, _o=_o: mk(_o, s, o))


def norm(t):
  """c < x and x > c are the same comparison; selections take their negation"""
  if isinstance(t, tuple) and t and t[0] in CMP:
    a, b = norm(t[1]), norm(t[2])
    if a[0] == 'c' and b[0] != 'c':
      return (MIRROR[t[0]], b, a)
    return (t[0], a, b)
  if isinstance(t, tuple) and t and t[0] in OPS + ['where']:
    return (t[0],) + tuple(norm(q) for q in t[1:])
  return t


def sub(t, old, new):
  if t == old:
    return new
  if isinstance(t, tuple):
    return tuple(sub(q, old, new) for q in t)
  return t


def views(r, what):
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar
  if not isinstance(r, SemiTracedScalar):
    raise Failed(f'{what} is not a SemiTracedScalar but {type(r).__name__}')
  return r.local, r.global_


def pair(name):
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar
  return SemiTracedScalar(local=T('L', name), global_=T('G', name))


def operation(op, form):
  """obligation: both views of the result are op of the operands' views, in order"""
  f = getattr(operator, f'__{op}__')
  x, y = pair('x'), pair('y')
  # an opaque constant stands for every constant; the concrete ones cover code that looks at the type or the value
  consts = ([T('C')] if form[0] == 's' else []) + CONSTS if 'c' in form else [None]
  for c in consts:
    a, b = {'ss': (x, y), 'sc': (x, c), 'cs': (c, x), 'xx': (x, x)}[form]
    loc, gbl = views(f(a, b), f'{op} ({form})')
    for v, letter in ((loc, 'L'), (gbl, 'G')):
      q = [key(o) if o is c else (letter, o.local.t[1]) for o in (a, b)]
      want = norm((op,) + tuple(q))
      got = norm(key(v))
      if got != want:
        raise Failed(f'{op} ({form}): the {dict(L="local", G="global")[letter]} view is {got}, expected {want}',
                     model=dict(operation=op, operands=form, constant=repr(c), view=letter, got=repr(got)))


def where():
  """obligation: selection; the local view from its jaxpr, the global view through the numpy protocol"""
  import jax, jax.numpy as jnp
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar
  box = {}

  def f(c, x, y):
    s = lambda l, n: SemiTracedScalar(local=l, global_=T('G', n))
    r = SemiTracedScalar.where(s(c, 'c'), s(x, 'x'), s(y, 'y'))
    loc, box['g'] = views(r, 'where')
    return loc
  S = jax.ShapeDtypeStruct
  closed = jax.make_jaxpr(f)(S((), jnp.bool_), S((), jnp.int32), S((), jnp.int32))
  from vf import spmd
  w = [np.array([True, False]), np.array([11, 12], np.int32), np.array([21, 22], np.int32)]
  # the local view is a selection: all primitives are selections or copies of the operands, so two devices decide it
  prims = set()

  def walk(j):
    for e in j.eqns:
      p = e.params.get('jaxpr')
      if p is not None:
        walk(p.jaxpr)
      else:
        prims.add(e.primitive.name)
  walk(closed.jaxpr)
  if not prims <= {'select_n', 'convert_element_type', 'broadcast_in_dim', 'copy', 'not'}:
    raise Unsupported(f'local view of where uses {prims}')
  r = spmd.Spmd(2, 'i').run(closed, *w)[0]
  if r.tolist() != [11, 22]:
    raise Failed(f'where: the local view selects {r.tolist()} instead of [11, 22]', model=dict(operation='where'))
  if box['g'].t != ('where', ('G', 'c'), ('G', 'x'), ('G', 'y')):
    raise Failed(f'where: the global view is {box["g"].t}', model=dict(operation='where'))


def leaves(n):
  import jax
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar as S
  from vf import spmd
  for name, mk_, want in (('axis_index', lambda: S.axis_index('i'), np.arange(n)),
                          ('axis_size', lambda: S.axis_size('i'), np.full(n, n)),
                          ('constant', lambda: S.constant(5, 'i'), np.full(n, 5)),
                          ('constant', lambda: S.constant(True, 'i'), np.full(n, True))):
    box = {}

    def f():
      loc, box['g'] = views(mk_(), name)
      return loc
    closed = jax.make_jaxpr(f, axis_env=[('i', n)])()
    loc = np.asarray(spmd.Spmd(n, 'i').run(closed)[0])
    g = box['g']
    if not isinstance(g, np.ndarray) or g.shape != (n,) or not np.array_equal(g, want):
      raise Failed(f'{name}: global view {g!r} for axis size {n}', model=dict(leaf=name, axis_size=n))
    if not np.array_equal(np.broadcast_to(loc, (n,)), want):
      raise Failed(f'{name}: local views {loc} for axis size {n}', model=dict(leaf=name, axis_size=n))


def prove(chk):
  chk.trust('jax tracing', 'vf/spmd.py', 'parametricity: the methods treat their operands as opaque values (checked: any other use is rejected)')
  chk.assume('an operator of jax on scalars and the same operator of numpy on arrays compute the same values (machine integers in range)')
  for op in OPS + CMP:
    for form in ('ss', 'sc', 'cs', 'xx'):
      chk.oblige(f'{op}: views agree ({form})', lambda: operation(op, form), 'term equality', F[4:])
  chk.oblige('where: views agree', where, 'term equality', F[:1])
  top = chk.n(300, 1200)

  def lv():
    for n in range(1, top + 1):
      leaves(n)
    return f'axis sizes 1..{top}'
  chk.oblige('leaves: index, size, constant', lv, 'evaluation', F[1:4], bounded=f'axis sizes 1..{top}')

  def c1():
    x = pair('x')
    if norm(key((1 - x).local)) != norm(('sub', ('L', 'x'), ('c', 'int', 1.0))):
      raise Failed('1 - x is not x - 1')
  chk.canary('operand order matters', c1, 'term equality')


def contracts(chk):
  """random expressions over the real class, evaluated on a mapped axis"""
  import jax, jax.numpy as jnp
  from swirl_fem.communication.semi_traced_scalar import SemiTracedScalar as S
  rng = np.random.RandomState(chk.seed)

  def gen(depth):
    if depth == 0 or rng.rand() < .15:
      return rng.choice(['i', 'n', 'k']), int(rng.randint(0, 4))
    r = rng.rand()
    if r < .12:
      return 'where', (rng.choice(CMP), gen(depth - 1), gen(depth - 1)), gen(depth - 1), gen(depth - 1)
    if r < .75:
      return rng.choice(OPS), gen(depth - 1), gen(depth - 1)
    return rng.choice(['add', 'sub', 'mul', 'floordiv', 'mod', 'and', 'or', 'xor', 'lshift', 'rshift', 'truediv', 'pow']), int(rng.randint(0, 4)), gen(depth - 1)

  class Undefined(Exception):
    pass

  def ev(e, i, n):
    if isinstance(e, (int, float)):
      return e
    if e[0] in 'ink' and len(e) == 2:
      return {'i': i, 'n': n, 'k': e[1]}[e[0]]
    if e[0] == 'where':
      c, a, b = [ev(q, i, n) for q in e[1:]]
      return a if c else b
    a, b = ev(e[1], i, n), ev(e[2], i, n)
    if e[0] in CMP:
      return getattr(operator, f'__{e[0]}__')(a, b)
    isint = lambda v: isinstance(v, int) and not isinstance(v, bool)
    if not (isint(a) and isint(b)):
      # floating-point constants: only where the result is insensitive to rounding
      if e[0] not in ('add', 'sub', 'mul', 'truediv') or isinstance(a, bool) or isinstance(b, bool) or e[0] == 'truediv' and b == 0:
        if e[0] not in ('pow', 'floordiv', 'mod') or not isinstance(b, float) or a < 0:
          raise Undefined
      try:
        return getattr(operator, f'__{e[0]}__')(a, b)
      except ArithmeticError:
        raise Undefined from None
    if e[0] in ('floordiv', 'mod', 'truediv') and b == 0 or e[0] in ('lshift', 'rshift') and not 0 <= b < 20 or \
       e[0] == 'pow' and not (0 <= b < 8 and (a, b) != (0, 0)):
      raise Undefined
    r = getattr(operator, f'__{e[0]}__')(a, b)
    if abs(r) > 2 ** 30:
      raise Undefined
    return r

  def build(e):
    if isinstance(e, (int, float)):
      return e
    if e[0] in 'ink' and len(e) == 2:
      return {'i': lambda: S.axis_index('i'), 'n': lambda: S.axis_size('i'), 'k': lambda: S.constant(e[1], 'i')}[e[0]]()
    if e[0] == 'where':
      return S.where(*[build(q) for q in e[1:]])
    return getattr(operator, f'__{e[0]}__')(build(e[1]), build(e[2]))

  def tup(e):
    return tuple(tup(q) for q in e) if isinstance(e, tuple) else float(e) if isinstance(e, float) else (int(e) if isinstance(e, (int, np.integer)) else str(e))
  done = 0
  fixed = [tup(e) for o in OPS + CMP for e in ((o, ('i', 0), ('k', 2)), (o, ('i', 0), ('n', 0)), (o, ('i', 0), 2), (o, 2, ('i', 0)))]
  # negative operands (the sign of a remainder, arithmetic shifts, bits of negative numbers)
  low = ('sub', ('i', 0), 4)
  fixed += [tup((o, *ab)) for o in OPS + CMP for c in (-3, -1, 3) for ab in ((low, c), (c, low), (low, ('k', c)), (('k', c), low))
            if o != 'pow']        # negative integer powers of integers are rejected by jax and numpy
  fixed += [tup((o, ('k', a), ('k', b))) for o in OPS for a in (-7, 7) for b in (-2, 2) if b > 0 or o not in ('pow', 'lshift', 'rshift')]
  fixed.append(('where', ('lt', ('i', 0), ('k', 2)), ('n', 0), ('i', 0)))
  fixed += [(o, *ab) for o in ('add', 'sub', 'mul', 'truediv') for c in (.5, 2., -1.5) for ab in ((('i', 0), c), (c, ('n', 0)), (c, ('add', ('i', 0), 1)))]
  fixed += [('where', ('i', 0), ('n', 0), ('k', 7)), ('where', ('sub', ('i', 0), 2), ('i', 0), ('n', 0)), ('where', ('and', ('i', 0), 2), ('k', 1), ('i', 0))]
  # integral results that leave 32 bits or need a fractional exponent
  fixed += [('mul', ('mul', ('i', 0), 4e18), 4.), ('pow', ('add', ('i', 0), 1), -1.), ('pow', ('add', ('i', 0), 1), .5), ('floordiv', ('i', 0), 2.), ('mod', ('i', 0), 2.)]
  todo = fixed + [None] * chk.n(60, 600)
  for e in todo:
    n = int(rng.randint(1, 9))
    if e is None:
      for _ in range(200):
        e = tup(gen(rng.randint(1, 4)))
        try:
          want = [ev(e, i, n) for i in range(n)]
          break
        except Undefined:
          e = None
    else:
      n = 5
      try:
        want = [ev(e, i, n) for i in range(n)]
      except Undefined:
        ix = [i for i in range(n)]
        want = None
    if e is None:
      continue

    def run(e=e, n=n, want=want):
      box = {}

      def f(_):
        r = build(e)
        if not isinstance(r, S):
          return jnp.asarray(r)
        box['g'] = r.global_
        return jnp.asarray(r.local)
      with np.errstate(all='ignore'):
        loc = np.asarray(jax.vmap(f, axis_name='i')(jnp.zeros(n)))
      if isinstance(e, int) or 'g' not in box:
        return 'not a SemiTracedScalar'
      g = np.asarray(box['g'])
      if g.shape != (n,):
        return f'global view has shape {g.shape}'
      if want is None:
        sel = []
        for i in range(n):
          try:
            sel.append((i, ev(e, i, n)))
          except Undefined:
            pass
      else:
        sel = list(enumerate(want))
      for i, w in sel:
        if not np.isclose(float(loc[i]), float(w), rtol=1e-5) or not np.isclose(float(g[i]), float(w), rtol=1e-12):
          return f'index {i} of {n}: local {loc[i]}, global {g[i]}, expected {w}'
    chk.case('expression', run, dict(expression=repr(e), axis_size=n))

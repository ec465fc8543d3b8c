"""C16: parallel prefix scan and reduction equal the sequential fold."""
LEVEL = 'proof'
NOTE = ('For every axis size: pscan, preduce and the schedule of exchanges are proved from their Python source with loop invariants '
        '(vf/scanvc.py): the schedule loop keeps a partition of the axis into intervals and terminates, every exchange is a '
        'permutation, and the data, in the free monoid, are the words of the letters of devices 0..i-1 (all devices for the '
        'reduction), which settles every associative operation, every value, order included. Done for each of the seven operations; the '
        'unit of each operation and type (read off the real code) is proved to be neutral by z3 for every value of the type. The '
        'collectives and lax.cond enter by contract; the same words are checked on the traced program for concrete axis sizes.')
TECHNIQUE = ('function contracts, loop invariants over symbolic groups of devices, verification conditions from the Python source discharged '
             'by z3 (free-monoid data); units by z3 (bit vectors and IEEE floats)')

import numpy as np
from vf.core import Failed, Unsupported
from vf import spmd, scanvc

F = ['pscan', 'preduce', '_fanin_fanout', '_fanin_fanout_flat', 'unit_table', '_dtype_range']

INTS = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
FLOATS = ['float16', 'bfloat16', 'float32', 'float64']
BITOPS = ('bitwise_and', 'bitwise_or', 'bitwise_xor')
OPS = ('add', 'multiply', 'maximum', 'minimum') + BITOPS


def dtypes(op):
  return ['bool'] + INTS + ([] if op in BITOPS else FLOATS)


def prim_of(op, dtype):
  """the primitive the operation stands for at this type, and how two operands enter it"""
  import jax, jax.numpy as jnp
  s = jax.ShapeDtypeStruct((), dtype)
  j = jax.make_jaxpr(lambda a, b: getattr(jnp, op)(a, b))(s, s)

  def find(jaxpr):
    es = jaxpr.eqns
    while len(es) == 1 and es[0].primitive.name in ('pjit', 'jit'):
      es = es[0].params['jaxpr'].jaxpr.eqns
    if len(es) != 1:
      raise Unsupported(f'{op} at {dtype}: {j}')
    return es[0].primitive.name
  return find(j.jaxpr)


def unit_of(op, dtype):
  """the scan's value on device 0, read off the real code"""
  import jax, jax.numpy as jnp
  from swirl_fem.communication.pscan import pscan
  r = jax.vmap(lambda x: pscan(x, getattr(jnp, op), axis_name='i'), axis_name='i')(jnp.ones((1,), dtype))
  if r.dtype != jnp.dtype(dtype):
    raise Failed(f'scan of {dtype} has type {r.dtype}', model=dict(op=op, dtype=dtype))
  return np.asarray(r)[0]


def neutral(op, dtype):
  """obligation: op(unit, x) == x for every value x of the type"""
  import z3
  u = unit_of(op, dtype)
  prim = prim_of(op, dtype)
  if dtype == 'bool':
    x = z3.Bool('x')
    c = z3.BoolVal(bool(u))
    r = dict(zip(('or', 'and', 'add', 'mul', 'max', 'min', 'xor'),
                 (lambda: z3.Or(c, x), lambda: z3.And(c, x), lambda: z3.Or(c, x), lambda: z3.And(c, x),
                  lambda: z3.Or(c, x), lambda: z3.And(c, x), lambda: z3.Xor(c, x))))[prim]()
    goal = r == x
  elif dtype in INTS:
    bits = np.dtype(dtype).itemsize * 8
    x, c = z3.BitVec('x', bits), z3.BitVecVal(int(u), bits)
    lt = z3.ULT if dtype[0] == 'u' else (lambda a, b: a < b)
    r = {'add': lambda: c + x, 'mul': lambda: c * x, 'max': lambda: z3.If(lt(c, x), x, c), 'min': lambda: z3.If(lt(x, c), x, c),
         'and': lambda: c & x, 'or': lambda: c | x, 'xor': lambda: c ^ x}[prim]()
    goal = r == x
  else:
    sort = dict(float16=z3.Float16(), bfloat16=z3.FPSort(8, 8), float32=z3.Float32(), float64=z3.Float64())[dtype]
    x = z3.FP('x', sort)
    uf = float(u)
    c = z3.fpPlusInfinity(sort) if uf == np.inf else z3.fpMinusInfinity(sort) if uf == -np.inf else z3.FPVal(uf, sort)
    r = {'add': lambda: z3.fpAdd(z3.RNE(), c, x), 'mul': lambda: z3.fpMul(z3.RNE(), c, x),
         'max': lambda: z3.If(z3.fpGT(c, x), c, x), 'min': lambda: z3.If(z3.fpLT(c, x), c, x)}[prim]()
    goal = z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.fpEQ(r, x))
  s = z3.Solver()
  s.set('timeout', 60000)
  s.add(z3.Not(goal))
  res = s.check()
  if res == z3.sat:
    raise Failed(f'the unit {u!r} of {op} at {dtype} changes a value: {s.model()}',
                 model=dict(op=op, dtype=dtype, unit=repr(u), value=str(s.model()[s.decls()[0]] if hasattr(s, "decls") else s.model())))
  if res != z3.unsat:
    raise Unsupported('z3: unknown')
  return f'unit {u!r} ({prim})'


STRUCT = {'a': ((), 'float64'), 'b': ((2,), 'int32'), 'c': ((), 'bool')}


def symbolic(op, n, kind, leaves):
  """obligation: pscan/preduce at axis size n computes the words of the sequential fold"""
  import jax, jax.numpy as jnp
  from swirl_fem.communication.pscan import pscan, preduce
  jop = getattr(jnp, op)
  x = [jax.ShapeDtypeStruct(s, jnp.dtype(t)) for s, t in leaves]
  tree = lambda l: dict(p=l[0], q=tuple(l[1:]))
  if kind == 'scan':
    f = lambda *l: pscan(tree(l), jop, axis_name='i')
  elif kind == 'both':
    f = lambda *l: pscan(tree(l), jop, axis_name='i', reduction=True)
  else:
    f = lambda *l: preduce(tree(l), jop, axis_name='i')
  shape = {}

  def g(*l):
    o = f(*l)
    fl, shape['t'] = jax.tree_util.tree_flatten(o)
    return fl
  try:
    closed = jax.make_jaxpr(g, axis_env=[('i', n)])(*x)
  except Exception as e:
    raise Failed(f'{kind} with {op} on {n} devices raises {type(e).__name__}: {e}'[:600], model=dict(op=op, axis_size=n, kind=kind))
  want = tree(list(range(len(leaves))))
  want = (want, want) if kind == 'both' else want
  if shape['t'] != jax.tree_util.tree_structure(want):
    raise Failed(f'result has structure {shape["t"]}', model=dict(op=op, n=n, kind=kind))
  prims = {prim_of(op, t) for _, t in leaves}
  if len(prims) > 1:
    raise Unsupported('mixed primitives')
  it = spmd.Spmd(n, 'i', op=prims.pop(), unit=[unit_of(op, t) for _, t in leaves])
  outs = it.run(closed, *[spmd.words(j, s, n) for j, (s, _) in enumerate(leaves)])
  m = len(leaves)
  for k, o in enumerate(outs):
    j = k % m
    s = leaves[j][0]
    scan = kind == 'scan' or (kind == 'both' and k < m)
    if o.shape != (n,) + tuple(s) or closed.out_avals[k].dtype != x[j].dtype:
      raise Failed(f'leaf {j} has shape {o.shape}, type {closed.out_avals[k].dtype}', model=dict(op=op, n=n, kind=kind))
    for d in range(n):
      for e, ix in enumerate(np.ndindex(*s)):
        w = it.word(o[(d,) + ix])
        need = tuple((j, e, q) for q in range(d if scan else n))
        if w.w != need or w.conv:
          raise Failed(f'{"scan" if scan else "reduction"} with {op} on device {d} of {n}: leaf {j} combines {list(w.w)} '
                       f'instead of {list(need)}', model=dict(op=op, axis_size=n, kind=kind, device=d, got=repr(w.w), want=repr(need)))


def prove(chk):
  chk.trust('jax tracing', 'vf/spmd.py (lock-step interpreter)', 'z3',
            'contract of lax.ppermute, psum, pmax, pmin, axis_index, cond')
  chk.assume('operations are treated as associative (floating point rounding differs with the bracketing)',
             'lax.psum/pmax/pmin fold over the axis', 'NaN operands of minimum/maximum follow jnp',
             'leaves are treated one by one and elementwise (the operation is only applied to corresponding leaves)',
             'machine integers of device numbers are mathematical')
  top = chk.n(33, 100)
  sizes = list(range(1, top + 1)) + chk.n([48, 63, 64, 65], [127, 128, 129, 255, 256, 257])
  B = f'axis sizes 1..{top} and {sizes[top:]}'

  def all_sizes(op, kind, leaves, sizes):
    def f():
      for n in sizes:
        try:
          symbolic(op, n, kind, leaves)
        except Failed as e:
          raise Failed(str(e), model=e.model or dict(op=op, axis_size=n, kind=kind))
      return f'{len(sizes)} axis sizes'
    return f
  one = [((), 'int64')]
  few = [1, 2, 3, 4, 5, 6, 7, 8, 12]

  def bounded(op, kind):
    def f():
      all_sizes(op, kind, one, sizes)()
      all_sizes(op, kind, [((), 'int32'), ((2,), 'int64'), ((1, 2), 'uint8')], few)()
      all_sizes(op, kind, [((), 'bool'), ((2,), 'bool')], few[:5])()
      if op not in BITOPS:
        all_sizes(op, kind, [((), 'float32'), ((3,), 'float64')], few[:6])()
    return f

  def every_size(op, kind, leaves, wrong=False):
    def f():
      return scanvc.verify(kind, op, leaves, {t: unit_of(op, t) for t in set(leaves)}, wrong)
    return f
  for op in OPS:
    for kind in ('scan', 'both', 'reduce'):
      lv = ['int32', 'bool'] if op == 'multiply' else ['bool'] if op in BITOPS else ['float32']
      for ls in [lv] + ([lv[::-1]] if len(lv) > 1 else []):
        chk.oblige(f'{kind} with {op} of {" and ".join(ls)}: fold of the right devices in order, every axis size',
                   every_size(op, kind, ls), 'z3', F, stand_in=(B, bounded(op, kind)))
  for kind in ('scan', 'both', 'reduce'):
    def wrong(kind=kind):
      try:
        every_size('multiply', kind, ['int32'], wrong=True)()
      except Unsupported as e:
        if 'of the result' in str(e) and 'not inductive' in str(e):
          raise Failed('refuted')
        raise
    chk.canary(f'{kind}: a fold of other devices is refuted', wrong)
  # the same words from the traced program, for some sizes: the contracts of the collectives as tracing sees them
  for op in OPS:
    for kind in ('scan', 'both', 'reduce'):
      def traced(op=op, kind=kind):
        try:
          for n in chk.n([1, 2, 5], few + [33, 64, 100]):
            symbolic(op, n, kind, [((), 'bool'), ((2,), 'bool')] if op in BITOPS else [((), 'float32'), ((2,), 'float64')])
        except Failed as e:
          return dict(what=str(e), model=e.model)
      chk.case('words of the traced program', traced, dict(op=op, kind=kind))
  for op in OPS:
    for t in dtypes(op):
      chk.oblige(f'unit of {op} at {t} is neutral for every value', lambda: neutral(op, t), 'z3', F[-2:])

  def c1():
    it = spmd.Spmd(2, 'i', op='add')
    import jax, jax.numpy as jnp
    from jax import lax
    closed = jax.make_jaxpr(lambda x: x + lax.ppermute(x, 'i', [(0, 1), (1, 0)]), axis_env=[('i', 2)])(jax.ShapeDtypeStruct((), jnp.int32))
    o = it.run(closed, spmd.words(0, (), 2))[0]
    if o[1].w == ((0, 0, 0), (0, 0, 1)):
      return
    raise Failed('swapped order is seen')
  chk.canary('order of the operands matters', c1, 'free monoid')


def contracts(chk):
  """the real code on real devices (vmap axis, pmap axis)"""
  import jax, jax.numpy as jnp
  from swirl_fem.communication.pscan import pscan, preduce
  rng = np.random.RandomState(chk.seed)
  NP = dict(add=np.add, multiply=np.multiply, maximum=np.maximum, minimum=np.minimum, bitwise_and=np.bitwise_and,
            bitwise_or=np.bitwise_or, bitwise_xor=np.bitwise_xor)

  def values(t, n):
    if t == 'bool':
      return rng.randint(2, size=(n, 2)).astype(bool)
    if t in INTS:
      i = np.iinfo(t)
      return np.array([rng.choice([i.min, i.max, 0, 1, 2, 3, 5]) for _ in range(2 * n)]).astype(t).reshape(n, 2)
    return np.array([rng.choice([-np.inf, np.inf, 1., 2., -3., 0.5]) for _ in range(2 * n)], t).reshape(n, 2)
  cases = [(op, t, n) for op in OPS for t in ['bool', 'int32', 'uint8', 'float64'] if not (op in BITOPS and t[0] == 'f')
           for n in ([5] if not chk.thorough else [1, 2, 3, 5, 7, 8, 11])]
  for op, t, n in cases:
    x = values(t, n)
    if op in ('add', 'multiply') and t[0] == 'f':
      x = rng.randint(-3, 4, (n, 2)).astype(t)

    def run(op=op, t=t, n=n, x=x):
      jop = getattr(jnp, op)
      f = lambda v: (pscan(v, jop, axis_name='i'), pscan(v, jop, axis_name='i', reduction=True), preduce(v, jop, axis_name='i'))
      s, (s2, r2), r = jax.vmap(f, axis_name='i')(jnp.asarray(x))
      with np.errstate(all='ignore'):
        acc, out = None, []
        for d in range(n):
          out.append(acc)
          acc = x[d] if acc is None else NP[op](acc, x[d]).astype(x.dtype)
      for name, got in (('scan', s), ('scan with reduction', s2)):
        g = np.asarray(got)
        if g.dtype != x.dtype or g.shape != x.shape:
          return f'{name}: type {g.dtype} shape {g.shape}'
        for d in range(1, n):
          if not np.array_equal(g[d], out[d]):
            return f'{name} on device {d}: {g[d]} expected {out[d]}'
        for d in range(n):
          if not np.array_equal(NP[op](g[0], x[d]).astype(x.dtype), x[d]):
            return f'{name} on device 0: {g[0]} is not neutral for {x[d]}'
      for name, got in (('reduction with scan', r2), ('reduction', r)):
        g = np.asarray(got)
        if g.dtype != x.dtype or not all(np.array_equal(g[d], acc) for d in range(n)):
          return f'{name}: {g} expected {acc} everywhere'
    chk.case('scan and reduction on a mapped axis', run, dict(op=op, dtype=t, axis_size=n, x=x))

  # leaves of different types in one tree, in every order
  for op in OPS:
    ts = ['bool', 'int32', 'uint8'] + ([] if op in BITOPS else ['float64'])
    xs = {t: (rng.randint(0, 3, (5, 2)) if op in ('add', 'multiply') and t != 'bool' else values(t, 5)).astype(t) for t in ts}
    for order in (ts, ts[::-1], ts[1:] + ts[:1]):
      def mixed(op=op, order=order, xs=xs):
        jop = getattr(jnp, op)
        f = lambda v: (pscan(v, jop, axis_name='i'), *pscan(v, jop, axis_name='i', reduction=True), preduce(v, jop, axis_name='i'))
        s, s2, r2, r = jax.vmap(f, axis_name='i')([jnp.asarray(xs[t]) for t in order])
        for j, t in enumerate(order):
          acc, out = None, []
          with np.errstate(all='ignore'):
            for d in range(5):
              out.append(acc)
              acc = xs[t][d] if acc is None else NP[op](acc, xs[t][d]).astype(t)
          for name, got, want in (('scan', s[j], out), ('scan with reduction', s2[j], out), ('reduction with scan', r2[j], [acc] * 5),
                                  ('reduction', r[j], [acc] * 5)):
            g = np.asarray(got)
            if g.dtype != np.dtype(t) or any(w is not None and not np.array_equal(g[d], w) for d, w in enumerate(want)):
              return f'{name} of the {t} leaf of {order}: {g.tolist()} ({g.dtype}) expected {[None if w is None else w.tolist() for w in want]}'
      chk.case('trees of mixed types', mixed, dict(op=op, order=order, x=xs))

  def devices():
    n = min(6, len(jax.devices()))
    x = np.arange(1, n + 1, dtype=np.int32)
    r = jax.pmap(lambda v: pscan(dict(a=v), jnp.multiply, axis_name='i', reduction=True), axis_name='i')(jnp.asarray(x))
    s = np.asarray(r[0]['a']).tolist()
    want = [int(np.prod(x[:d])) for d in range(n)]
    if s != want or set(np.asarray(r[1]['a']).tolist()) != {int(np.prod(x))}:
      return f'{s} expected {want}'
  chk.case('scan across devices', devices, dict(n=6))

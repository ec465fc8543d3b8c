"""Lock-step interpretation of a jaxpr with collectives on all indices of a mapped axis.

Every value is stacked along a leading axis with one entry per index of the mapped axis. Data is symbolic:
`Word`s of the free monoid over (leaf, element, device) letters, on which the operation under verification is
concatenation (so a result which is the right word is right for every associative operation and all data).
Collectives follow their contracts: ppermute moves entries, psum/pmax/pmin are the fold over the axis in order.
"""
import numpy as np
from vf.core import Failed, Unsupported


class Word:
  __slots__ = ('w', 'conv')

  def __init__(self, w, conv=None):
    self.w, self.conv = tuple(w), conv

  def __repr__(self):
    return 'W' + repr(self.w) + (str(self.conv) if self.conv else '')


def words(leaf, shape, n):
  """The input of one leaf: element e on device d is the letter (leaf, e, d)."""
  a = np.empty((n,) + tuple(shape), object)
  for d in range(n):
    for e, ix in enumerate(np.ndindex(*shape)):
      a[(d,) + ix] = Word([(leaf, e, d)])
  return a


_NP = dict(add=np.add, sub=np.subtract, mul=np.multiply, lt=np.less, le=np.less_equal, gt=np.greater, ge=np.greater_equal,
           eq=np.equal, ne=np.not_equal, max=np.maximum, min=np.minimum, sign=np.sign, neg=np.negative, abs=np.abs)
_NP['and'], _NP['or'], _NP['xor'], _NP['not'] = np.bitwise_and, np.bitwise_or, np.bitwise_xor, np.invert
OPS = {'add', 'mul', 'max', 'min', 'and', 'or', 'xor'}


def tdiv(a, b):
  q = np.abs(a) // np.abs(b)
  return np.where(np.sign(a) * np.sign(b) < 0, -q, q).astype(np.result_type(a))


def to_obj(a):
  """Object array that keeps numpy scalars (and so their types)."""
  a = np.asarray(a)
  if a.dtype == object:
    return a
  o = np.empty(a.shape, object)
  for i in np.ndindex(*a.shape):
    o[i] = a[i]
  return o


class Spmd:

  def __init__(self, n, axis, op=None, unit=()):
    """op: name of the primitive that is concatenation of words; unit: the values of its unit (one per type)."""
    self.n, self.axis, self.op, self.unit = n, axis, op, [np.asarray(u) for u in unit]

  def stack(self, v):
    v = np.asarray(v)
    return np.broadcast_to(v, (self.n,) + v.shape)

  def run(self, closed, *args):
    return self.eval(closed.jaxpr, [self.stack(c) for c in closed.consts], list(args))

  def eval(self, jaxpr, consts, args):
    env = {}
    from jax.extend.core import Literal
    for v, x in zip(jaxpr.constvars, consts):
      env[v] = x
    for v, x in zip(jaxpr.invars, args):
      env[v] = x
    get = lambda v: self.stack(v.val) if isinstance(v, Literal) else env[v]
    for eqn in jaxpr.eqns:
      outs = self.prim(eqn, [get(v) for v in eqn.invars])
      if not eqn.primitive.multiple_results and not isinstance(outs, (list, tuple)):
        outs = [outs]
      for v, x in zip(eqn.outvars, outs):
        env[v] = x
    return [get(v) for v in jaxpr.outvars]

  # ------------------------------------------------------------ words
  def word(self, x):
    if isinstance(x, Word):
      return x
    if any(np.asarray(x).dtype == u.dtype and x == u for u in self.unit):
      return Word(())
    raise Failed(f'the value {x!r}, which is not the unit {self.unit!r} of the operation, is combined with data')

  def cat(self, name, a, b):
    if name != self.op:
      raise Failed(f'operation {name!r} applied to data, the operation requested is {self.op!r}')
    def f(x, y):
      x, y = self.word(x), self.word(y)
      if x.conv != y.conv:
        raise Unsupported('mixed types')
      return Word(x.w + y.w, x.conv)
    return np.frompyfunc(f, 2, 1)(to_obj(a), to_obj(b)) if a.size or b.size else a

  def prim(self, eqn, args):
    name, p = eqn.primitive.name, eqn.params
    sym = any(a.dtype == object for a in args)
    aval = eqn.outvars[0].aval if eqn.outvars else None
    if name in ('pjit', 'jit', 'closed_call', 'custom_jvp_call', 'custom_vjp_call', 'remat', 'core_call'):
      j = p.get('jaxpr') or p.get('call_jaxpr')
      return self.run(j, *args) if hasattr(j, 'consts') else self.eval(j, [], args)
    if name == 'axis_index':
      if p['axis_name'] != self.axis:
        raise Unsupported('axis')
      return np.arange(self.n, dtype=np.int32)
    if name == 'ppermute':
      self.named(p['axis_name'])
      return [self.ppermute(a, p['perm']) for a in args]
    if name in ('psum', 'pmax', 'pmin', 'psum_invariant', 'psum2'):
      self.named(p['axes'])
      if p.get('axis_index_groups') is not None:
        raise Unsupported('groups')
      return [self.reduce({'m': name[1:4]}.get(name[1], 'add'), a) for a in args]
    if name == 'cond':
      return self.cond(p['branches'], args[0], args[1:])
    if name == 'select_n':
      w, cs = args[0], args[1:]
      w = np.asarray(w).astype(int)
      if w.dtype == object:
        raise Unsupported('selection by data')
      while w.ndim < cs[0].ndim:
        w = w[..., None]
      if sym:
        cs = [to_obj(c) for c in cs]
      out = np.array(np.broadcast_to(cs[0], np.broadcast_shapes(w.shape, cs[0].shape)),
                     dtype=object if sym else cs[0].dtype)
      for i, c in enumerate(cs):
        m = np.broadcast_to(w == i, out.shape)
        out[m] = np.broadcast_to(c, out.shape)[m]
      return out
    if name == 'convert_element_type':
      a, t = args[0], p['new_dtype']
      if a.dtype != object:
        return a.astype(t)
      src, dst = eqn.invars[0].aval.dtype, np.dtype(t)
      if src == dst:
        return a
      def f(x):
        if not isinstance(x, Word):
          return x.astype(dst)
        if src == bool and dst.kind in 'iu' and x.conv is None:
          return Word(x.w, 'count')
        if x.conv == 'count' and dst == bool:
          return Word(x.w)
        raise Failed(f'data converted from {src} to {dst}')
      return np.frompyfunc(f, 1, 1)(a)
    if name == 'broadcast_in_dim':
      a = args[0]
      shape, dims = p['shape'], p['broadcast_dimensions']
      new = [1] * len(shape)
      for i, d in enumerate(dims):
        new[d] = a.shape[1 + i]
      return np.broadcast_to(a.reshape((self.n,) + tuple(new)), (self.n,) + tuple(shape))
    if name in ('reshape', 'squeeze', 'expand_dims'):
      return args[0].reshape((self.n,) + tuple(aval.shape))
    if name in ('copy', 'copy_p', 'stop_gradient', 'optimization_barrier', 'pvary'):
      return args if eqn.primitive.multiple_results else args[0]
    if sym:
      if name in OPS and len(args) == 2:
        return self.cat(name, args[0], args[1])
      raise Unsupported(f'{name} of data')
    if name == 'div' and args[0].dtype.kind in 'iu':
      return tdiv(args[0], args[1])
    if name == 'rem' and args[0].dtype.kind in 'iu':
      return np.fmod(args[0], args[1])
    if name in _NP:
      return _NP[name](*args)
    raise Unsupported(f'primitive {name}')

  def named(self, axes):
    axes = axes if isinstance(axes, tuple) else (axes,)
    if tuple(axes) != (self.axis,):
      raise Unsupported(f'axes {axes}')

  def ppermute(self, a, perm):
    out = np.empty_like(a)
    if a.dtype == object:
      out[...] = np.zeros((), int)
    else:
      out[...] = 0
    if len({int(s) for s, _ in perm}) < len(perm) or len({int(d) for _, d in perm}) < len(perm):
      raise Failed(f'not a permutation: {perm}')
    for s, d in perm:
      out[int(d)] = a[int(s)]
    return out

  def reduce(self, op, a):
    if a.dtype == object:
      if op == 'add' and self.op == 'or':            # a sum of booleans as counts, nonzero iff one of them holds
        f = lambda x, y: Word(x.w + y.w, 'count') if x.conv == y.conv == 'count' else self._bad()
      else:
        f = lambda x, y: self.cat(op, np.array(x, object), np.array(y, object))
      out = a[0]
      for d in range(1, self.n):
        out = np.frompyfunc(f, 2, 1)(out, a[d])
      return np.broadcast_to(np.asarray(out, object), a.shape)
    r = dict(add=np.add, max=np.maximum, min=np.minimum)[op].reduce(a, axis=0)
    return np.broadcast_to(r, a.shape)

  def _bad(self):
    raise Failed('sum of booleans')

  def cond(self, branches, idx, args):
    if idx.dtype == object:
      raise Unsupported('branch on data')
    idx = np.clip(idx.astype(int), 0, len(branches) - 1)
    used = sorted(set(idx.tolist()))
    if len(used) > 1 and any(collective(branches[b].jaxpr) for b in used):
      raise Failed('a collective is executed by some devices only')
    outs = None
    for b in used:
      r = self.run(branches[b], *args)
      if outs is None:
        outs = [np.array(x) for x in r]
      else:
        m = idx == b
        for i, x in enumerate(r):
          if x.dtype == object:
            outs[i] = to_obj(outs[i])
          outs[i][m] = to_obj(x)[m] if outs[i].dtype == object else x[m]
    return outs


def collective(jaxpr):
  for e in jaxpr.eqns:
    if e.primitive.name in ('ppermute', 'psum', 'pmax', 'pmin', 'all_gather', 'all_to_all', 'psum2'):
      return True
    for v in e.params.values():
      for j in (v if isinstance(v, (tuple, list)) else [v]):
        j = getattr(j, 'jaxpr', j)
        if hasattr(j, 'eqns') and collective(j):
          return True
  return False

"""Deductive back end for matrix-free Krylov code ("vecvc").

The real JAX function is traced with abstract vectors (pytrees of arrays) and
*opaque* operators: a linear operator is an uninterpreted JAX primitive, and so is
the inner product. The resulting jaxpr - the text JAX runs - is interpreted over a
vector space: a vector value is a linear combination  sum_j c_j * W_j v_j  of words
of operators applied to free vectors, with coefficients in the field of rational
functions over the scalars; an inner product becomes a canonical symmetric bilinear
symbol. Loops (`while`) are handled by the inductive-invariant rule, never unrolled.
Scalars are reals (stated assumption).
"""
import itertools
import sympy as sp
from vf.core import Failed, Unsupported

_prims = {}


def opaque_op(name):
  """A JAX-callable opaque operator on a pytree (structure preserving)."""
  import jax
  from jax.extend import core as jex_core
  key = 'vfop_' + name
  if key not in _prims:
    p = jex_core.Primitive(key)
    p.multiple_results = True
    p.def_abstract_eval(lambda *a, **k: list(a))
    _prims[key] = p
  p = _prims[key]

  def f(x):
    leaves, tree = jax.tree_util.tree_flatten(x)
    return jax.tree_util.tree_unflatten(tree, p.bind(*leaves, opname=name))
  return f


def opaque_dot():
  """A JAX-callable opaque inner product of two arrays (leaf-wise)."""
  from jax.extend import core as jex_core
  from jax import core
  if 'vfdot' not in _prims:
    p = jex_core.Primitive('vfdot')
    p.def_abstract_eval(lambda a, b: a.update(shape=()))
    _prims['vfdot'] = p
  return lambda a, b: _prims['vfdot'].bind(a, b)


# ------------------------------------------------------------------ values
class Sc:
  """scalar"""

  def __init__(self, e):
    self.e = sp.sympify(e)

  def __repr__(self):
    return f'Sc({self.e})'


class Bo:
  """boolean scalar: z3-style nested tuple formula over sympy scalars"""

  def __init__(self, f):
    self.f = f


class Ve:
  """leaf `leaf` of a vector sum_j c_j W_j v_j; terms: {(word, name): coeff}"""

  def __init__(self, terms, leaf):
    self.t = {k: v for k, v in terms.items() if v != 0}
    self.leaf = leaf

  def __repr__(self):
    return f'Ve[{self.leaf}](' + ' + '.join(f'{c}*{"".join(w)}{n}' for (w, n), c in self.t.items()) + ')'


def vec(name, leaf, word=()):
  return Ve({(tuple(word), name): sp.Integer(1)}, leaf)


def uniform_zero(x):
  return isinstance(x, Sc) and x.e == 0


def vadd(x, y, s=1):
  if uniform_zero(x):
    return Ve({k: s * v for k, v in y.t.items()}, y.leaf) if isinstance(y, Ve) else Sc(s * y.e)
  if uniform_zero(y):
    return x
  if not (isinstance(x, Ve) and isinstance(y, Ve)):
    raise Unsupported('adding a constant to a vector')
  if x.leaf != y.leaf:
    raise Unsupported('adding different leaves of a vector')
  t = dict(x.t)
  for k, v in y.t.items():
    t[k] = sp.together(t.get(k, 0) + s * v) if k in t else s * v
    if t[k] != 0 and sp.simplify(t[k]) == 0:
      t[k] = sp.Integer(0)
  return Ve(t, x.leaf)


def vscale(c, x):
  return Ve({k: c * v for k, v in x.t.items()}, x.leaf)


def vec_zero(x):
  if isinstance(x, Sc):
    return sp.simplify(x.e) == 0
  return all(zero(v) for v in x.t.values())


def zero(e):
  e = sp.sympify(e)
  if e == 0:
    return True
  num, _ = sp.fraction(sp.together(e))
  return sp.expand(num) == 0


def canon(u, w, v):
  """<u, w v> with self-adjoint operators"""
  return min((u, tuple(w), v), (v, tuple(reversed(w)), u))


class Space:
  """scalar symbols of inner products, rewriting hypotheses"""

  def __init__(self, nleaves):
    self.nl = nleaves
    self.sym = {}
    self.hyp = {}         # canonical total dot -> sympy scalar

  def dot_sym(self, key, leaf):
    """leaf None: total inner product; otherwise the leaf's share"""
    k = (key, leaf)
    if k not in self.sym:
      u, w, v = key
      self.sym[k] = sp.Symbol(f'<{u},{"".join(w)}{v}>' + ('' if leaf is None else f'_{leaf}'), real=True)
    return self.sym[k]

  def total(self, u, w, v):
    key = canon(u, w, v)
    if key in self.hyp:
      return self.hyp[key]
    return self.dot_sym(key, None)

  def leaf_dot(self, x, y):
    """inner product of two leaves: bilinear in the leaves. Only the sum over all the
    leaves obeys self-adjointness, so shares stay unnormalised until recombined."""
    if uniform_zero(x) or uniform_zero(y):
      return sp.Integer(0)
    if x.leaf != y.leaf:
      raise Unsupported('inner product of different leaves')
    out = sp.Integer(0)
    for (w1, u), c1 in x.t.items():
      for (w2, v), c2 in y.t.items():
        a, b = sorted([(w1, u), (w2, v)])
        if self.nl == 1:
          out += c1 * c2 * self.total(a[1], tuple(reversed(a[0])) + b[0], b[1])
        else:
          k = ('share', a, b, x.leaf)
          if k not in self.sym:
            self.sym[k] = sp.Symbol(f'<{"".join(a[0])}{a[1]},{"".join(b[0])}{b[1]}>_{x.leaf}', real=True)
          out += c1 * c2 * self.sym[k]
    return out

  def recombine(self, e):
    """sum of the shares of one inner product over all leaves -> the total"""
    if self.nl == 1:
      return e
    shares = {}
    for k, s in self.sym.items():
      if k[0] == 'share' and e.has(s):
        shares.setdefault((k[1], k[2]), {})[k[3]] = s
    if not shares:
      return e
    e = sp.expand(e)
    for (a, b), ss in shares.items():
      if len(ss) < self.nl:
        continue
      cs = [e.coeff(ss[j], 1) for j in range(self.nl)]
      if any(e.has(s) and sp.expand(e - e.coeff(s, 1) * s).has(s) for s in ss.values()):
        continue
      if all(zero(c - cs[0]) for c in cs[1:]) and cs[0] != 0:
        t = self.total(a[1], tuple(reversed(a[0])) + b[0], b[1])
        e = sp.expand(e - cs[0] * sum(ss.values())) + cs[0] * t
    return e

  def dot(self, X, Y):
    """total inner product of two vectors given leaf-wise"""
    out = sp.Integer(0)
    for (w1, u), c1 in X.t.items():
      for (w2, v), c2 in Y.t.items():
        out += c1 * c2 * self.total(u, tuple(reversed(w1)) + w2, v)
    return out


# ------------------------------------------------------------------ interpreter
class Interp:

  def __init__(self, space, on_while=None, vec_shapes=()):
    self.sp = space
    self.on_while = on_while
    self.dims = {}
    self.prims = set()

  def run(self, closed, *args):
    return self.eval(closed.jaxpr, [self.lift(c) for c in closed.consts], list(args))

  def lift(self, c):
    import numpy as np
    if isinstance(c, (Sc, Ve, Bo)):
      return c
    a = np.asarray(c)
    if a.size == 1 or (a == a.ravel()[0]).all():
      v = a.ravel()[0]
      if a.dtype.kind == 'b':
        return Bo(('const', bool(v)))
      return Sc(sp.Integer(int(v)) if a.dtype.kind in 'iu' else sp.nsimplify(float(v), rational=True))
    raise Unsupported('array constant')

  def eval(self, jaxpr, consts, args):
    env = {}

    def read(v):
      return self.lift(v.val) if type(v).__name__ == 'Literal' else env[v]
    for v, c in zip(jaxpr.constvars, consts):
      env[v] = c
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    for eqn in jaxpr.eqns:
      name = eqn.primitive.name
      self.prims.add(name)
      ins = [read(v) for v in eqn.invars]
      if name.startswith('vfop_'):
        outs = self.apply(eqn.params['opname'], ins)
      else:
        h = getattr(self, 'p_' + name, None)
        if h is None:
          raise Unsupported(f'primitive {name}')
        outs = h(eqn, *ins)
      if not isinstance(outs, list):
        outs = [outs]
      for v, o in zip(eqn.outvars, outs):
        env[v] = o
    return [read(v) for v in jaxpr.outvars]

  def apply(self, op, ins):
    if all(uniform_zero(x) for x in ins):
      return [Sc(0) for _ in ins]
    if any(not isinstance(x, Ve) for x in ins):
      raise Unsupported('operator applied to something that is not a vector')
    if [x.leaf for x in ins] != list(range(self.sp.nl)):
      raise Unsupported('operator applied to permuted leaves')
    for x in ins[1:]:
      if set(x.t) != set(ins[0].t) or not all(zero(x.t[k] - ins[0].t[k]) for k in x.t):
        raise Unsupported('operator applied to leaves of different vectors')
    return [Ve({((op,) + w, n): c for (w, n), c in x.t.items()}, x.leaf) for x in ins]

  # scalar/vector arithmetic
  def p_add(self, eqn, a, b):
    if isinstance(a, Sc) and isinstance(b, Sc):
      return Sc(self.sp.recombine(a.e + b.e))
    return vadd(a, b)
  p_add_any = p_add

  def p_sub(self, eqn, a, b):
    if isinstance(a, Sc) and isinstance(b, Sc):
      return Sc(self.sp.recombine(a.e - b.e))
    return vadd(a, b, -1)

  def p_mul(self, eqn, a, b):
    if isinstance(a, Sc) and isinstance(b, Sc):
      return Sc(a.e * b.e)
    if isinstance(a, Ve) and isinstance(b, Ve):
      raise Unsupported('elementwise product of vectors')
    return vscale(a.e, b) if isinstance(a, Sc) else vscale(b.e, a)

  def p_div(self, eqn, a, b):
    if isinstance(b, Ve):
      raise Unsupported('division by a vector')
    return Sc(a.e / b.e) if isinstance(a, Sc) else vscale(1 / b.e, a)

  def p_neg(self, eqn, a):
    return Sc(-a.e) if isinstance(a, Sc) else vscale(-1, a)

  def p_integer_pow(self, eqn, a):
    if not isinstance(a, Sc):
      raise Unsupported('power of a vector')
    return Sc(a.e ** eqn.params['y'])

  def p_square(self, eqn, a):
    if not isinstance(a, Sc):
      raise Unsupported('power of a vector')
    return Sc(a.e ** 2)

  def p_max(self, eqn, a, b):
    if not (isinstance(a, Sc) and isinstance(b, Sc)):
      raise Unsupported('maximum of vectors')
    return Sc(sp.Function('MAX')(a.e, b.e))

  def p_min(self, eqn, a, b):
    if not (isinstance(a, Sc) and isinstance(b, Sc)):
      raise Unsupported('minimum of vectors')
    return Sc(-sp.Function('MAX')(-a.e, -b.e))

  def p_convert_element_type(self, eqn, a):
    if isinstance(a, Bo):
      if eqn.params['new_dtype'].kind == 'b':
        return a
      raise Unsupported('boolean to number')
    k = eqn.params['new_dtype'].kind
    if k not in 'fiu':
      raise Unsupported('conversion')
    return a

  def p_broadcast_in_dim(self, eqn, a, *dyn):
    return a

  def p_reshape(self, eqn, a, *dyn):
    return a
  p_copy = p_stop_gradient = p_squeeze = p_reshape

  def p_dim_as_value(self, eqn):
    d = str(eqn.params['dim'])
    return Sc(self.dims.setdefault(d, sp.Symbol('dim(' + d + ')', integer=True, positive=True)))

  def p_dot_general(self, eqn, a, b):
    (ca, cb), (ba, bb) = eqn.params['dimension_numbers']
    if ba or bb or len(ca) != len(eqn.invars[0].aval.shape) or len(cb) != len(eqn.invars[1].aval.shape):
      raise Unsupported('matrix product')
    return Sc(self.sp.leaf_dot(a, b))

  def p_vfdot(self, eqn, a, b):
    return Sc(self.sp.leaf_dot(a, b))

  def cmp(self, op, a, b):
    if not (isinstance(a, Sc) and isinstance(b, Sc)):
      raise Unsupported('comparison of vectors')
    return Bo((op, a.e, b.e))

  def p_lt(self, eqn, a, b): return self.cmp('lt', a, b)
  def p_le(self, eqn, a, b): return self.cmp('le', a, b)
  def p_gt(self, eqn, a, b): return self.cmp('lt', b, a)
  def p_ge(self, eqn, a, b): return self.cmp('le', b, a)
  def p_and(self, eqn, a, b): return Bo(('and', a.f, b.f))
  def p_or(self, eqn, a, b): return Bo(('or', a.f, b.f))
  def p_not(self, eqn, a): return Bo(('not', a.f))

  def p_pjit(self, eqn, *ins):
    return self.run(eqn.params['jaxpr'], *ins)
  p_jit = p_pjit

  def p_closed_call(self, eqn, *ins):
    return self.run(eqn.params['call_jaxpr'], *ins)

  def p_custom_jvp_call(self, eqn, *ins):
    return self.run(eqn.params['call_jaxpr'], *ins)

  def p_while(self, eqn, *ins):
    if self.on_while is None:
      raise Unsupported('loop')
    p = eqn.params
    nc, nb = p['cond_nconsts'], p['body_nconsts']
    return self.on_while(self, eqn, p['cond_jaxpr'], list(ins[:nc]), p['body_jaxpr'],
                         list(ins[nc:nc + nb]), list(ins[nc + nb:]))


# ------------------------------------------------------------------ booleans to z3
def to_z3(f, env):
  import z3

  def num(e):
    e = sp.sympify(e)
    if e.is_Integer or e.is_Rational:
      return z3.RealVal(str(e))
    if e.is_Symbol:
      return env.setdefault(e, z3.Real('s%d' % len(env)))
    if e.is_Add:
      return z3.Sum([num(a) for a in e.args])
    if e.is_Mul:
      return z3.Product([num(a) for a in e.args])
    if e.is_Pow and e.exp.is_Integer and e.exp > 0:
      return z3.Product([num(e.base)] * int(e.exp))
    if e.is_Pow and e.exp == -1:
      return 1 / num(e.base)
    if str(e.func) == 'MAX':
      a, b = [num(x) for x in e.args]
      return z3.If(a >= b, a, b)
    raise Unsupported(f'scalar {e}')
  op = f[0]
  if op == 'const':
    return z3.BoolVal(f[1])
  if op == 'lt':
    return num(f[1]) < num(f[2])
  if op == 'le':
    return num(f[1]) <= num(f[2])
  if op == 'and':
    return z3.And(to_z3(f[1], env), to_z3(f[2], env))
  if op == 'or':
    return z3.Or(to_z3(f[1], env), to_z3(f[2], env))
  if op == 'not':
    return z3.Not(to_z3(f[1], env))
  raise Unsupported(op)

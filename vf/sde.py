"""Symbolic tracing of the SDE solver: opaque drift and diffusion with opaque
vector-Jacobian products, symbolic numbers of segments, increments and components.

The only injected name is `len` in the module under test (so that len(array) may be a
symbolic dimension); it agrees with the builtin on everything else.
"""
import numpy as np
import z3
from vf import jxvc as jv
from vf.core import Failed, Unsupported

_prims = {}


def prim(name):
  from jax.extend import core as jexc
  if name not in _prims:
    p = jexc.Primitive('vfsde_' + name)
    p.multiple_results = True
    p.def_abstract_eval(lambda *a, out: [a[i] for i in out])
    _prims[name] = p
  return _prims[name]


def opaque(name):
  """(y, t, dw, args) -> structure of y, with an opaque vector-Jacobian product"""
  import jax
  tu = jax.tree_util

  @jax.custom_vjp
  def f(y, t, dw, args):
    ly, ty = tu.tree_flatten(y)
    return tu.tree_unflatten(ty, prim(name).bind(*ly, *tu.tree_leaves((t, dw, args)), out=tuple(range(len(ly)))))

  def fwd(y, t, dw, args):
    return f(y, t, dw, args), (y, t, dw, args)

  def bwd(res, ct):
    l, tr = tu.tree_flatten(res)
    return tu.tree_unflatten(tr, prim(name + '_vjp').bind(*l, *tu.tree_leaves(ct), out=tuple(range(len(l)))))
  f.defvjp(fwd, bwd)
  return f


def _len(x):
  return x.shape[0] if hasattr(x, 'shape') else len(x)


def apply(name, k, ins, shape):
  """spec side and code side share this uninterpreted function symbol"""
  ins = tuple(ins)
  return jv.Arr(shape, 'f', lambda *idx: jv.atom('opaque', f'{name}.{k}', [jv.iz(i) for i in idx], ins))


class Scan:
  pass


class SdeInterp(jv.Interp):

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.unroll_scan = 2
    self.scans = []
    for p in list(_prims):
      self.opaque['vfsde_' + p] = self._op

  def _op(self, it, eqn, ins):
    name = eqn.primitive.name[6:]
    if name.endswith('_vjp'):
      # linear in the cotangents: zero ones give zero
      cts = ins[len(eqn.params['out']):]
      if cts and all(not a.at(*[jv.fresh('z') for _ in a.shape]).ms for a in cts):
        return [jv.Arr(ins[k].shape, 'f', lambda *i: jv.Poly()) for k in eqn.params['out']]
    return [apply(name, k, ins, ins[k].shape) for k in eqn.params['out']]

  def scan_hook(self, it, eqn, n, consts, init, xs):
    s = Scan()
    s.n, s.consts, s.init, s.xs = n, consts, init, xs
    s.reverse, s.jaxpr = eqn.params['reverse'], eqn.params['jaxpr']
    s.id = len(self.scans)
    s.nc = len(init)
    self.scans.append(s)
    s.outs = [jv.rarr(f'scan{s.id}.{k}', self.shape(v.aval)) for k, v in enumerate(eqn.outvars)]
    if any(self.kindof(v.aval) != 'f' for v in eqn.outvars):
      raise Unsupported('integer carried through the time loop')
    return s.outs


class State:
  """(t, components...) carried through the loop, in any order, flattened or not"""

  def __init__(self, hyps, comps):
    self.hyps = hyps
    self.comps = comps          # names -> size (z3)

  def total(self):
    return z3.Sum([jv.iz(s) for s in self.comps.values()])

  def pack(self, arrs):
    """concatenation of component arrays (spec side)"""
    offs, o = [], z3.IntVal(0)
    for nm, sz in self.comps.items():
      offs.append((o, sz, arrs[nm]))
      o = o + jv.iz(sz)

    def fn(i):
      out = jv.Poly()
      for o, sz, a in offs:
        out = out + a.at(jv.iz(i) - o).guard(z3.And(jv.iz(i) >= o, jv.iz(i) < o + jv.iz(sz)))
      return out
    return jv.Arr((z3.simplify(self.total()),), 'f', fn)

  def encode(self, carry_shapes, t, arrs):
    """the carried tuple for a given abstract state; by shape"""
    names = list(self.comps)
    out, left = [], list(names)
    flat = jv.simp(self.total())
    for shp in carry_shapes:
      if len(shp) == 0:
        out.append(t)
      elif len(shp) == 1 and jv.valid(self.hyps, jv.iz(shp[0]) == flat):
        out.append(self.pack(arrs))
        left = []
      elif len(shp) == 1:
        for nm in left:
          if jv.valid(self.hyps, jv.iz(shp[0]) == jv.iz(self.comps[nm])):
            out.append(arrs[nm])
            left.remove(nm)
            break
        else:
          raise Unsupported(f'carried array of unexpected shape {shp}')
      else:
        raise Unsupported(f'carried array of unexpected shape {shp}')
    if left:
      raise Unsupported(f'state components not carried: {left}')
    return out


def add(a, b):
  return jv.Arr(a.shape, 'f', lambda *i: a.at(*i) + b.at(*i))


def scale(c, a):
  return jv.Arr(a.shape, 'f', lambda *i: c * a.at(*i))


def neg(a):
  return jv.Arr(a.shape, 'f', lambda *i: -a.at(*i))


def real(i):
  return jv.convert(jv.Arr((), 'i', lambda: jv.iz(i)), 'f').at()


def scalar(p):
  return jv.Arr((), 'f', lambda: p)


def heun(arrs, t, dt, w, drift, diff):
  """one Euler-Heun step, componentwise (specification)"""
  mu, s1 = drift(arrs, t, w), diff(arrs, t, w)
  pred = {k: add(v, s1[k]) for k, v in arrs.items()}
  t1 = scalar(t.at() + dt)
  s2 = diff(pred, t1, w)
  half = jv.Poly.const(jv.Fraction(1, 2))
  return t1, {k: add(add(arrs[k], scale(dt, mu[k])), scale(half, add(s1[k], s2[k]))) for k in arrs}


def check_scan(it, s, st, t0, init, n, dt, W, drift, diff, reverse, what):
  """loop contract of one time loop; returns the final components by name.

  t0, init: required entry state; W: required increments (array of length n) visited in
  order (reversed when `reverse`)."""
  hyps = it.hyps
  if not jv.valid(hyps, jv.iz(s.n) == jv.iz(n)):
    raise Failed(f'{what}: the loop runs {s.n} times, not {n}')
  if bool(s.reverse) != bool(reverse):
    raise Failed(f'{what}: increments visited in the wrong order')
  shapes = [a.shape for a in s.init]
  for k, (a, b) in enumerate(zip(s.init, st.encode(shapes, t0, init))):
    jv.prove_arr_eq(a, b, hyps, f'{what}: entry state [{k}]')
  # generic iteration
  t = scalar(jv.atom('var', f'{what}.t'))
  X = {k: jv.rarr(f'{what}.{k}', (sz,)) for k, sz in st.comps.items()}
  j = jv.fresh('step')
  h2 = list(hyps) + [j >= 0, j < jv.iz(n)]
  xs = [jv.Arr(x.shape[1:], x.kind, lambda *i, x=x: x.at(j, *i)) for x in s.xs]
  it.hyps = h2
  try:
    nxt = it._call(s.jaxpr, list(s.consts) + st.encode(shapes, t, X) + xs)[:s.nc]
  finally:
    it.hyps = list(hyps)
  w = jv.Arr((), 'f', lambda: W.at(j))
  t1, X1 = heun(X, t, dt, w, drift, diff)
  for k, (a, b) in enumerate(zip(nxt, st.encode(shapes, t1, X1))):
    jv.prove_arr_eq(a, b, h2, f'{what}: one step, carried [{k}]')
  # result components
  out = {}
  flat = jv.simp(st.total())
  left = list(st.comps)
  for a in s.outs[:s.nc]:
    if len(a.shape) == 0:
      continue
    if jv.valid(hyps, jv.iz(a.shape[0]) == flat):
      o = z3.IntVal(0)
      for nm, sz in st.comps.items():
        out[nm] = jv.Arr((sz,), 'f', lambda i, a=a, o=o: a.at(jv.iz(i) + o))
        o = o + jv.iz(sz)
      left = []
    else:
      for nm in left:
        if jv.valid(hyps, jv.iz(a.shape[0]) == jv.iz(st.comps[nm])):
          out[nm] = a
          left.remove(nm)
          break
  return out


class Setup:
  """symbolic call of the real sdeint"""

  def __init__(self, segments=None, closed_over=True):
    import jax, jax.numpy as jnp
    from jax import export
    from swirl_fem.sde import sdeint as sd
    sd.len = _len
    self.sd = sd
    self.n, self.m, self.S, self.K, self.q, self.c = export.symbolic_shape(
        'n,m,S,K,q,c', constraints=['n>=1', 'm>=1', 'S>=1', 'K>=1', 'q>=1', 'c>=1'])
    if segments:
      self.S = segments
    self.dims = {k: z3.Int(k) for k in 'nmSKqc'}
    # pairwise different sizes: arrays are told apart by their symbolic sizes only
    self.hyps = [v >= 1 for v in self.dims.values()]
    self.mu, self.sig = opaque('mu'), opaque('sigma')
    self.closed_over = closed_over

  def shapes(self):
    n, m, S, K, q, c = self.n, self.m, self.S, self.K, self.q, self.c
    return dict(ya=(n,), yb=(m,), ts=(S + 1,), dw=(S * K,), th=(q,), ph=(c,))

  def call(self, y0, ts, dw, th, ph):
    # `ph` reaches drift and diffusion by closure, `th` as an explicit extra argument
    f = lambda y, t, w, th: (self.mu(y, t, w, (th, ph)), self.sig(y, t, w, (th, ph)))
    return self.sd.sdeint(f, y0, ts, dw, th)

  def arrays(self):
    d = self.dims
    zS = self.S if isinstance(self.S, int) else d['S']
    shp = dict(ya=(d['n'],), yb=(d['m'],), ts=(zS + 1,), dw=(zS * d['K'],), th=(d['q'],), ph=(d['c'],))
    return {k: jv.rarr(k, s) for k, s in shp.items()}

  def drift_diff(self, th, ph):
    def f(name):
      def g(X, t, w):
        ins = [X['a'], X['b'], t, w, th, ph]
        return {'a': apply(name, 0, ins, X['a'].shape), 'b': apply(name, 1, ins, X['b'].shape)}
      return g
    return f('mu'), f('sigma')

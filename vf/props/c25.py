"""C25: SDE gradients integrate the adjoint Stratonovich system exactly as specified."""
NOTE = ('jax.vjp of the real sdeint is traced with opaque drift and diffusion whose vector-Jacobian products are opaque '
        'symbols, symbolic numbers of increments and components, for one and for two segments (the composition over '
        'segments is JAX\'s own transposition of scan); forward and backward time loops are proved by loop contracts. '
        'nn_sdeint gradients are exercised by runtime contracts (bounded).')
TECHNIQUE = ('loop contracts (entry state, one generic iteration of the augmented system, order of increments) on the '
             'jaxpr of jax.vjp of the real sdeint, discharged by index-notation normalisation and z3')

import numpy as np
import z3
from vf.core import Failed, Unsupported
from vf import jxvc as jv
from vf import sde

F = ['sde.sdeint._sdeint_fwd', 'sdeint._sdeint_rev', 'sdeint._sdeint_rev.aug_f', 'sdeint._sdeint_wrapper', 'sdeint._sdeint',
     'sdeint.sdeint', 'sdeint.ravel_first_arg']


def adjoint(segments, false=None):
  import jax, jax.numpy as jnp
  su = sde.Setup(segments=segments)
  sh = su.shapes()
  S = lambda k, s=None: jax.ShapeDtypeStruct(s or sh[k], jnp.float64)
  y0 = dict(a=S('ya'), b=S('yb'))
  ct = dict(a=S(0, (segments,) + sh['ya']), b=S(0, (segments,) + sh['yb']))

  def run(y0, ts, dw, th, ph, ct):
    _, vjp = jax.vjp(su.call, y0, ts, dw, th, ph)
    return vjp(ct)
  closed = jax.make_jaxpr(run)(y0, S('ts'), S('dw'), S('th'), S('ph'), ct)
  A = su.arrays()
  d, hyps = su.dims, su.hyps
  C = dict(a=jv.rarr('ca', (segments, d['n'])), b=jv.rarr('cb', (segments, d['m'])))
  it = sde.SdeInterp(hyps, dim_env=d)
  outs = it.run(closed, A['ya'], A['yb'], A['ts'], A['dw'], A['th'], A['ph'], C['a'], C['b'])
  if len(outs) != 6:
    raise Failed(f'{len(outs)} cotangents')
  if len(it.scans) != 2 * segments:
    raise Unsupported(f'{len(it.scans)} time loops for {segments} segments')
  fwd, bwd = it.scans[:segments], it.scans[segments:]
  # ---- forward pass
  drift, diff = su.drift_diff(A['th'], A['ph'])
  X = dict(a=A['ya'], b=A['yb'])
  T = [A['ts'].at(z3.IntVal(j)) for j in range(segments + 1)]
  K = d['K']
  Ws = [jv.Arr((K,), 'f', lambda i, j=j: A['dw'].at(z3.IntVal(j) * K + jv.iz(i))) for j in range(segments)]
  ends = []
  for j in range(segments):
    dt = (T[j + 1] - T[j]) * jv.recip(sde.real(K))
    X = sde.check_scan(it, fwd[j], sde.State(hyps, dict(a=d['n'], b=d['m'])), sde.scalar(T[j]), X, K, dt, Ws[j],
                       drift, diff, False, f'forward segment {j}')
    ends.append(X)
  # ---- backward pass: last segment first
  comps = dict(a=d['n'], b=d['m'], ya=d['n'], yb=d['m'], th=d['q'], ph=d['c'])
  names = ['a', 'b']

  def aug(name):
    def g(Z, s, w):
      mt = sde.scalar(-s.at())
      ins = [Z['a'], Z['b'], mt, w, A['th'], A['ph']]
      out = {}
      for k, nm in enumerate(names):
        f = sde.apply(name, k, ins, Z[nm].shape)
        out[nm] = f if false == 'sign' else sde.neg(f)
      vins = ins + [Z['ya'], Z['yb']]
      for k, nm in ((0, 'ya'), (1, 'yb'), (4, 'th'), (5, 'ph')):
        out[nm] = sde.apply(name + '_vjp', k, vins, (comps[nm],))
      return out
    return g
  zero = lambda n: jv.Arr((n,), 'f', lambda i: jv.Poly())
  ybar = None
  tot = dict(th=zero(d['q']), ph=zero(d['c']))
  for q, j in enumerate(range(segments - 1, -1, -1)):
    inc = {nm: jv.Arr((comps[nm],), 'f', lambda i, nm=nm, j=j: C[nm].at(z3.IntVal(j), i)) for nm in names}
    if ybar is not None:
      inc = {nm: sde.add(inc[nm], ybar[nm]) for nm in names}
    init = dict(a=ends[j]['a'], b=ends[j]['b'], ya=inc['a'], yb=inc['b'], th=zero(d['q']), ph=zero(d['c']))
    dt = (T[j + 1] - T[j]) * jv.recip(sde.real(K))
    Z = sde.check_scan(it, bwd[q], sde.State(hyps, comps), sde.scalar(-T[j + 1]), init, K, dt, Ws[j],
                       aug('mu'), aug('sigma'), true_reverse(false), f'backward segment {j}')
    ybar = dict(a=Z['ya'], b=Z['yb'])
    tot = {k: sde.add(tot[k], Z[k]) for k in tot}
  for nm, o in zip(('a', 'b'), outs[:2]):
    jv.prove_arr_eq(o, ybar[nm], hyps, f'cotangent of the initial state, leaf {nm}')
  zS = segments
  jv.prove_arr_eq(outs[2], jv.Arr((zS + 1,), 'f', lambda i: jv.Poly()), hyps, 'cotangent of the times vanishes')
  jv.prove_arr_eq(outs[3], jv.Arr((zS * K,), 'f', lambda i: jv.Poly()), hyps, 'cotangent of the increments vanishes')
  jv.prove_arr_eq(outs[4], tot['th'], hyps, 'cotangent of the extra argument')
  jv.prove_arr_eq(outs[5], tot['ph'], hyps, 'cotangent of the closed-over argument')
  return dict(primitives=sorted(it.prims))


def true_reverse(false):
  return False if false == 'order' else True


def prove(chk):
  chk.assume('machine arithmetic treated as exact real arithmetic',
             'drift and diffusion are functions of (state, time, increment, extra arguments); their vector-Jacobian '
             'products are those of jax.vjp (linear in the cotangent)')
  chk.trust('jax.make_jaxpr, jax.vjp (including transposition of the outer scan over segments), lax.scan semantics',
            'vf/jxvc.py, vf/sde.py', 'z3')
  for s in (1, 2):
    chk.oblige(f'vjp of sdeint = adjoint Heun loop [{s} segment{"s" * (s > 1)}, symbolic increments and sizes]',
               lambda s=s: adjoint(s), 'index-notation+z3', F)
  chk.canary('wrong sign of the backward state refuted', lambda: adjoint(1, 'sign'))
  chk.canary('wrong order of increments refuted', lambda: adjoint(1, 'order'))


# ---------------------------------------------------------------------- runtime contracts
def reference(f, y, ts, dw, args, ct):
  """adjoint Heun loop written out with jax.vjp of drift and diffusion"""
  import jax
  tm = jax.tree_util.tree_map
  S = len(ts) - 1
  K = len(dw) // S
  add = lambda a, b: tm(lambda p, q: p + q, a, b)
  from vf.props.c14 import reference as fwd
  ends = fwd(f, y, ts, dw, args)
  zero = lambda x: tm(lambda p: p * 0, x)
  tot = zero(args)
  ybar = zero(y)
  for j in range(S - 1, -1, -1):
    dt = (ts[j + 1] - ts[j]) / K
    Z = (ends[j], add(ybar, tm(lambda c: c[j], ct)), zero(args))

    def part(Z, s, w, k):
      g = lambda y, args: f(y, -s, w, *args)[k]
      v, vjp = jax.vjp(g, Z[0], args)
      yb, ab = vjp(Z[1])
      return (tm(lambda p: -p, v), yb, ab)
    s = -ts[j + 1]
    for k in range(K - 1, -1, -1):
      w = dw[j * K + k]
      mu, s1 = part(Z, s, w, 0), part(Z, s, w, 1)
      s2 = part(add(Z, s1), s + dt, w, 1)
      Z = tm(lambda a, m, p, q: a + m * dt + .5 * (p + q), Z, mu, s1, s2)
      s = s + dt
    ybar = Z[1]
    tot = add(tot, Z[2])
  return ybar, tot


def contracts(chk):
  import jax, jax.numpy as jnp
  from swirl_fem.sde import sdeint as sd
  from vf.props.c14 import sde_fn
  rng = np.random.default_rng(chk.seed)
  f = sde_fn()
  tl = jax.tree_util.tree_leaves
  for S, K in ((1, 1), (1, 3), (2, 2)) + (((3, 4),) if chk.thorough else ()):
    ts = jnp.asarray(np.sort(rng.uniform(0, 1, S + 1)))
    dw = jnp.asarray(rng.standard_normal(S * K) * .3)
    y0 = dict(a=jnp.asarray(rng.standard_normal(3)), b=jnp.asarray(rng.standard_normal(2)))
    args = (jnp.asarray(rng.standard_normal((3, 3)) * .4), jnp.asarray(.2))
    ct = dict(a=jnp.asarray(rng.standard_normal((S, 3))), b=jnp.asarray(rng.standard_normal((S, 2))))

    def case():
      ys, vjp = jax.vjp(lambda y, ts, dw, *a: sd.sdeint(f, y, ts, dw, *a), y0, ts, dw, *args)
      yb, tb, wb, *ab = vjp(ct)
      ryb, rab = reference(f, y0, np.asarray(ts), np.asarray(dw), args, ct)
      if np.abs(tb).max() != 0 or np.abs(wb).max() != 0 or tb.shape != ts.shape or wb.shape != dw.shape:
        return dict(ts_bar=tb, dw_bar=wb)
      for nm, g, w in zip(['y.a', 'y.b', 'A', 's'], tl(yb) + tl(tuple(ab)), tl(ryb) + tl(rab)):
        if g.shape != w.shape or not np.allclose(g, w, rtol=1e-9, atol=1e-9):
          return dict(cotangent=nm, got=g, want=w)
      two = vjp(jax.tree_util.tree_map(lambda c: 2.5 * c, ct))
      for a, b in zip(tl(two), tl((yb, tb, wb, *ab))):
        if not np.allclose(a, 2.5 * b, rtol=1e-10, atol=1e-10):
          return dict(not_linear=[a, b])
    chk.case('adjoint', case, dict(S=S, K=K, ts=ts, dw=dw, y0=y0, args=args, ct=ct))

  from vf.props.c14 import VARIANTS, variant
  for v in VARIANTS:
    def general(v=v):
      y0, ts, dw, args, fn, g, S, K = variant(v, chk.seed)
      ct = [g(S, *q) for q in v['state']]
      ys, vjp = jax.vjp(lambda y, ts, dw, *a: sd.sdeint(fn, y, ts, dw, *a), y0, ts, dw, *args)
      yb, tb, wb, *ab = vjp(ct)
      ryb, rab = reference(fn, y0, np.asarray(ts), np.asarray(dw), tuple(args), ct)
      if np.abs(tb).max() != 0 or np.abs(wb).max() != 0 or tb.shape != ts.shape or wb.shape != dw.shape:
        return dict(ts_bar=tb, dw_bar=wb)
      if len(ab) != len(args):
        return dict(cotangents=len(ab), arguments=len(args))
      for k, (g_, w_) in enumerate(zip(tl(yb) + list(ab), tl(ryb) + list(rab))):
        if g_.shape != w_.shape or not np.allclose(g_, w_, rtol=1e-8, atol=1e-9):
          return dict(leaf=k, got=g_, want=w_)
    chk.case('adjoint, general shapes', general, v)

  def closure():
    A, s = jnp.asarray(rng.standard_normal((3, 3)) * .4), jnp.asarray(.2)
    ts = jnp.array([0., .4, 1.]); dw = jnp.asarray(rng.standard_normal(4) * .3)
    y0 = dict(a=jnp.asarray(rng.standard_normal(3)), b=jnp.asarray(rng.standard_normal(2)))
    L = lambda ys: ys['a'].sum() + (ys['b'] ** 2).sum()
    g1 = jax.grad(lambda A: L(sd.sdeint(f, y0, ts, dw, A, s)))(A)
    g2 = jax.grad(lambda A: L(sd.sdeint(lambda y, t, w, s: f(y, t, w, A, s), y0, ts, dw, s)))(A)
    if not np.allclose(g1, g2, rtol=1e-10, atol=1e-12):
      return dict(explicit=g1, closed_over=g2)
  chk.case('closed-over argument', closure, 'gradient through a closure equals gradient through an extra argument')

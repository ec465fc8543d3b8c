"""C14: the SDE integrator applies exactly the Euler-Heun scheme on every segment."""
NOTE = ('The real sdeint is traced with opaque drift and diffusion, a state of two leaves of symbolic sizes, symbolic '
        'numbers of segments and of increments; both loops (segments, increments) are proved by loop contracts, so the '
        'statement holds for every number of segments and steps. nn_sdeint and the distribution of brownian_path are '
        'exercised by runtime contracts only (bounded).')
TECHNIQUE = ('loop contracts (entry state, one generic iteration, order of increments) on the jaxpr of the real sdeint, '
             'discharged by index-notation normalisation and z3')

import numpy as np
import z3
from vf.core import Failed, Unsupported
from vf import jxvc as jv
from vf import sde

F = ['sde.sdeint.sdeint', 'sdeint._sdeint_wrapper', 'sdeint._sdeint', 'sdeint.step_fn', 'sdeint.ravel_first_arg']


def segments(chk_false=None):
  """outer loop: generic segment; inner loop: generic increment"""
  import jax, jax.numpy as jnp
  su = sde.Setup()
  sh = su.shapes()
  S = lambda k: jax.ShapeDtypeStruct(sh[k], jnp.float64)
  y0 = dict(a=S('ya'), b=S('yb'))
  closed = jax.make_jaxpr(su.call)(y0, S('ts'), S('dw'), S('th'), S('ph'))
  A = su.arrays()
  it = sde.SdeInterp(su.hyps, dim_env=su.dims)
  out = it.run(closed, A['ya'], A['yb'], A['ts'], A['dw'], A['th'], A['ph'])
  if len(it.scans) != 1:
    raise Unsupported(f'{len(it.scans)} outer loops')
  s = it.scans[0]
  d, hyps = su.dims, su.hyps
  if not jv.valid(hyps, jv.iz(s.n) == d['S']):
    raise Failed('the number of segments is not len(ts) - 1')
  if s.reverse:
    raise Failed('segments integrated backwards')
  # ---- entry: state y0 at time ts[0]
  st = sde.State(hyps, dict(a=d['n'], b=d['m']))
  shapes = [a.shape for a in s.init]
  t0 = sde.scalar(A['ts'].at(z3.IntVal(0)))
  for k, (a, b) in enumerate(zip(s.init, st.encode(shapes, t0, dict(a=A['ya'], b=A['yb'])))):
    jv.prove_arr_eq(a, b, hyps, f'entry state of the segment loop [{k}]')
  # ---- generic segment j: from (t = ts[j], y) to (ts[j+1], y')
  j = jv.fresh('seg')
  h2 = list(hyps) + [j >= 0, j < d['S']]
  it.hyps = h2
  tj, tn = sde.scalar(A['ts'].at(j)), sde.scalar(A['ts'].at(j + 1))
  X = dict(a=jv.rarr('Xa', (d['n'],)), b=jv.rarr('Xb', (d['m'],)))
  xs = [jv.Arr(x.shape[1:], x.kind, lambda *i, x=x: x.at(j, *i)) for x in s.xs]
  it.scans = []
  outs = it._call(s.jaxpr, list(s.consts) + st.encode(shapes, tj, X) + xs)
  if len(it.scans) != 1:
    raise Unsupported(f'{len(it.scans)} inner loops')
  inner = it.scans[0]
  # dt = segment length over number of increments; increments j*K .. (j+1)*K-1 in order
  dt = (tn.at() - tj.at()) * jv.recip(sde.real(d['K']))
  W = jv.Arr((d['K'],), 'f', lambda i: A['dw'].at(j * d['K'] + jv.iz(i)))
  drift, diff = su.drift_diff(A['th'], A['ph'])
  if chk_false == 'euler':
    diff0 = diff
    diff = lambda X_, t, w: diff0(X, t, w) if X_ is not X else diff0(X_, t, w)
    drift0 = drift
    drift = lambda X_, t, w: {k: sde.neg(v) for k, v in drift0(X_, t, w).items()}
  fin = sde.check_scan(it, inner, st, tj, X, d['K'], dt, W, drift, diff, False, 'increments')
  for k, (a, b) in enumerate(zip(outs[:s.nc], st.encode(shapes, tn, fin))):
    jv.prove_arr_eq(a, b, h2, f'state handed to the next segment [{k}]')
  ys = outs[s.nc:]
  if len(ys) != 2:
    raise Failed(f'{len(ys)} outputs per segment')
  jv.prove_arr_eq(ys[0], fin['a'], h2, 'state recorded for the output time (leaf a)')
  jv.prove_arr_eq(ys[1], fin['b'], h2, 'state recorded for the output time (leaf b)')
  # ---- result: the recorded states
  it.hyps = hyps
  for k, o in enumerate(out):
    jv.prove_arr_eq(o, s.outs[s.nc + k], hyps, f'result leaf {k}')
  return dict(primitives=sorted(it.prims))


def prove(chk):
  chk.assume('machine arithmetic treated as exact real arithmetic',
             'drift and diffusion are functions of (state, time, increment, extra arguments)')
  chk.trust('jax.make_jaxpr, lax.scan, jax.custom_vjp (primal) semantics', 'vf/jxvc.py, vf/sde.py', 'z3')
  chk.oblige('sdeint: every segment, every increment (symbolic counts and sizes)', segments, 'index-notation+z3', F)
  chk.canary('wrong scheme refuted', lambda: segments('euler'))

  def brown():
    """brownian_path = sqrt(1/n) * standard normal draws of shape (n,)"""
    import jax, jax.numpy as jnp
    from jax import export
    from swirl_fem.sde import sdeint as sd
    n, = export.symbolic_shape('n', constraints=['n>=1'])
    N = z3.Int('n')
    real = jax.random.normal
    calls = []

    def normal(key, shape=(), dtype=float, **k):
      calls.append((key, shape))
      return sde.prim('normal').bind(jnp.zeros(shape, dtype), out=(0,))[0]
    jax.random.normal = normal
    try:
      closed = jax.make_jaxpr(lambda key: sd.brownian_path(key, n))(jax.ShapeDtypeStruct((2,), jnp.uint32))
    finally:
      jax.random.normal = real
    if len(calls) != 1:
      raise Unsupported('not one draw of standard normals')
    it = sde.SdeInterp([N >= 1], dim_env=dict(n=N))
    out, = it.run(closed, jv.iarr('key', (2,)))
    i = jv.fresh('i')
    h = [N >= 1, i >= 0, i < N]
    got = out.at(i)
    # variance: got = c * z[i] with c^2 = 1/n
    p = jv.normalise(got, h)
    if len(p.ms) != 1:
      raise Failed(f'not a scaled standard normal: {p!r}')
    atoms = [a for a in p.ms[0].atoms if a.kind == 'opaque' and a.name.startswith('normal')]
    if len(atoms) != 1 or not jv.valid(h, jv.iz(atoms[0].idx[0]) == i) or not jv.valid(h, jv.iz(out.shape[0]) == N):
      raise Failed(f'not one independent draw per increment: {p!r}')
    c = jv.Poly([jv.Mono(p.ms[0].c, p.ms[0].bound, p.ms[0].guards, [a for a in p.ms[0].atoms if a is not atoms[0]])])
    sq = square_const(c)
    jv.prove_eq(sq, jv.recip(sde.real(N)), h, 'variance of an increment')
  chk.oblige('brownian_path = sqrt(1/n) * independent standard normals', brown, 'index-notation+z3', ['sdeint.brownian_path'])


def square_const(c):
  """square of a product of atoms, with sqrt(x)^2 = x"""
  m, = c.ms
  out = jv.Poly.const(m.c * m.c)
  for a in m.atoms:
    if a.kind in ('opaque', 'fn') and 'sqrt' in a.name:
      x = a.args[0]
      out = out * (x if isinstance(x, jv.Poly) else x.at())
    else:
      p = jv.Poly([jv.Mono(jv.Fraction(1), atoms=[a])])
      out = out * p * p
  return out


# ---------------------------------------------------------------------- runtime contracts
def reference(f, y, ts, dw, args):
  import jax
  tm = jax.tree_util.tree_map
  S = len(ts) - 1
  K = len(dw) // S
  out = []
  for j in range(S):
    dt = (ts[j + 1] - ts[j]) / K
    t = ts[j]
    for k in range(K):
      w = dw[j * K + k]
      mu, s1 = f(y, t, w, *args)
      _, s2 = f(tm(lambda a, b: a + b, y, s1), t + dt, w, *args)
      y = tm(lambda a, m, p, q: a + m * dt + .5 * (p + q), y, mu, s1, s2)
      t = t + dt
    out.append(y)
  return out


def sde_fn(c=0.3):
  import jax.numpy as jnp

  def f(y, t, w, A, s):
    a, b = y['a'], y['b']
    mu = dict(a=A @ a + jnp.sin(t) * b.sum(), b=-b * jnp.cos(3 * t + a[0]))
    sg = dict(a=s * a * a * w + c * t * w, b=jnp.stack([a[0] * b[1], b[0] + t]) * jnp.sin(w))
    return mu, sg
  return f


# arguments and states of every rank, many arguments, several Brownian motions, times of either sign
VARIANTS = [dict(state=[()], args=[()] * 13, K=3, t0=-1.), dict(state=[(2, 3, 2), ()], args=[(2,), (1, 2, 2), (2, 1, 1, 2), (2, 2)], K=2, t0=-.3, cols=2),
            dict(state=[(3,)], args=[(3, 3), (3, 3), (3, 3)], K=40, t0=-2.5), dict(state=[(2, 2)], args=[], K=1, t0=.5),
            dict(state=[(5,), (5,), (5,)], args=[(5,), (5,), (5,), (1, 1, 1, 1, 1)], K=2, t0=0.)]


def variant(v, seed):
  import jax.numpy as jnp
  rs = np.random.default_rng(seed)
  S, K, cols = 2, v['K'], v.get('cols')
  g = lambda *shape: jnp.asarray(rs.standard_normal(shape))
  y0 = [g(*q) for q in v['state']]
  args = [g(*q) * .5 for q in v['args']]
  ts = v['t0'] + jnp.array([0., .3, 1.])
  dw = g(*(S * K, *v.get('dims', () if cols is None else (cols,)))) * .2

  def fn(y, t, w, *args):
    w = (1 + .1 * w.ndim) * jnp.sum(w * jnp.arange(1., 1 + w.size).reshape(w.shape))
    a = sum((k + 1.) * jnp.sum(jnp.sin(x * jnp.arange(1., 1 + x.size).reshape(x.shape))) for k, x in enumerate(args)) / (1. + len(args) ** 2)
    drift = [jnp.cos(q * (1 + .2 * i) + a) * (t + .3 * t ** 2) for i, q in enumerate(y)]
    return drift, [jnp.sin(q + .5 * (i + a) + t) * w for i, q in enumerate(y)]
  return y0, ts, dw, args, fn, g, S, K


def contracts(chk):
  import jax, jax.numpy as jnp
  from swirl_fem.sde import sdeint as sd
  rng = np.random.default_rng(chk.seed)
  f = sde_fn()
  for S, K in ((1, 1), (1, 4), (3, 2), (2, 5)) + (((4, 7), (5, 1)) if chk.thorough else ()):
    ts = jnp.asarray(np.sort(rng.uniform(0, 1, S + 1)))
    dw = jnp.asarray(rng.standard_normal(S * K) * .3)
    y0 = dict(a=jnp.asarray(rng.standard_normal(3)), b=jnp.asarray(rng.standard_normal(2)))
    args = (jnp.asarray(rng.standard_normal((3, 3)) * .4), jnp.asarray(.2))

    def case():
      ys = sd.sdeint(f, y0, ts, dw, *args)
      ref = reference(f, y0, np.asarray(ts), np.asarray(dw), args)
      for k in ('a', 'b'):
        want = np.stack([np.asarray(r[k]) for r in ref])
        if np.asarray(ys[k]).shape != want.shape or not np.allclose(ys[k], want, rtol=1e-10, atol=1e-10):
          return dict(leaf=k, got=ys[k], want=want)
    chk.case('euler-heun', case, dict(S=S, K=K, ts=ts, dw=dw, y0=y0, args=args))

  for v in VARIANTS + [dict(state=[(1,)], args=[()], K=150, t0=0.), dict(state=[(2, 1)], args=[(4, 4, 4)], K=333, t0=.25),
                       dict(state=[(3,)], args=[()], K=2, t0=0., dims=(2, 3)), dict(state=[(2,), ()], args=[], K=3, t0=-.5, dims=(1, 2, 2))]:
    def general(v=v):
      y0, ts, dw, args, fn, g, S, K = variant(v, chk.seed)
      ys = sd.sdeint(fn, y0, ts, dw, *args)
      step = jax.jit(lambda y, t, dt, w: reference(fn, y, [t, t + dt], [w], args)[0])
      ref, y = [], y0
      for j in range(S):
        dt = (ts[j + 1] - ts[j]) / K
        t = ts[j]
        for k in range(K):
          y = step(y, t, dt, dw[j * K + k])
          t = t + dt
        ref.append(y)
      for k in range(len(y0)):
        want = np.stack([np.asarray(r[k]) for r in ref])
        if np.asarray(ys[k]).shape != want.shape or not np.allclose(ys[k], want, rtol=1e-8, atol=1e-9):
          return dict(leaf=k, got=ys[k], want=want)
    chk.case('euler-heun, general shapes', general, v)

  def path():
    n, reps = 64, 4000
    keys = jax.random.split(jax.random.PRNGKey(chk.seed), reps)
    P = np.asarray(jax.vmap(lambda k: sd.brownian_path(k, n))(keys), float)
    if P.shape != (reps, n):
      return dict(shape=P.shape)
    if abs(P.var() * n - 1) > .03 or abs(P.mean()) * np.sqrt(n) > .01:
      return dict(variance_times_n=P.var() * n, mean=P.mean())
    c = np.corrcoef(P.T) - np.eye(n)
    if np.abs(c).max() > .12:
      return dict(max_correlation=np.abs(c).max())
    p1 = np.asarray(sd.brownian_path(jax.random.PRNGKey(1), 1))
    if p1.shape != (1,):
      return dict(shape=p1.shape)
  chk.case('brownian path statistics', path, 'bounded: 4000 paths of 64 increments')

  def lifted():
    import flax.linen as nn
    from swirl_fem.sde.flax_nn_sde import nn_sdeint

    class Net(nn.Module):
      @nn.compact
      def __call__(self, x, t, dw, shift):
        h = nn.Dense(3, param_dtype=jnp.float64, dtype=jnp.float64)(jnp.concatenate([x, t[None]])) + shift
        return jnp.tanh(h), dw * jnp.sin(h + x)

    class Model(nn.Module):
      def setup(self):
        self.net = nn_sdeint(Net)()

      def __call__(self, x, ts, dw, shift):
        return self.net(x, ts, dw, shift)
    ts = jnp.array([0., .3, 1.]); dw = jnp.asarray(rng.standard_normal(6) * .3)
    x = jnp.asarray(rng.standard_normal(3)); shift = jnp.asarray(rng.standard_normal(3))
    model = Model()
    params = model.init(jax.random.PRNGKey(0), x, ts, dw, shift)
    got = model.apply(params, x, ts, dw, shift)
    inner = jax.tree_util.tree_leaves(params)
    net = Net()
    sub = {'params': params['params']['net']}
    fn = lambda y, t, w, sh: net.apply(sub, y, t, w, sh)
    want = np.stack([np.asarray(r) for r in reference(fn, x, np.asarray(ts), np.asarray(dw), (shift,))])
    if got.shape != want.shape or not np.allclose(got, want, rtol=1e-9, atol=1e-9):
      return dict(got=got, want=want)
    init = Model().init_with_output(jax.random.PRNGKey(0), x, ts, dw, shift)[0]
    if init.shape != (2, 3):
      return dict(init_shape=init.shape)
  chk.case('flax lifting', lifted, 'nn_sdeint of a small network')

"""C08: interpolation reproduces polynomials; differentiation is exact on them."""
NOTE = ('Proved for every number of nodes and points: the entries of the matrices and weights are read off the Python source by z3 '
        '(vf/nodalvc.py) and are, by theorems in Lean (lean/Nodal.lean), the values and derivatives of the Lagrange basis. Newton-Cotes, '
        'Gauss and Gauss-Lobatto nodes; 1 to 3 dimensions. Assumed: what leggauss, roots_jacobi and eval_legendre compute, real arithmetic. '
        'Rounding is bounded by numeric contracts only (they include every family up to 13 to 60 points).')
LEVEL = 'proof'
TECHNIQUE = ('parallel-store and summation rules on the Python source: z3 conditions on the entries for every number of nodes, '
             'theorems about Lagrange bases in Lean 4; stand-ins: symbolic nodes (n <= 5), exact rationals (n <= 30)')

import functools, itertools
from fractions import Fraction
import numpy as np
from vf.core import Failed
from vf import fe, nodalvc

F = ['BarycentricInterpolator._barycentric_weights', 'BarycentricInterpolator._interpolation_matrix_1d',
     'BarycentricInterpolator._differentiation_matrix_1d', 'BarycentricInterpolator.interpolation_matrix',
     'BarycentricInterpolator.interpolation_matrix_grad', 'BarycentricInterpolator.interpolate',
     'BarycentricInterpolator.interpolate_grad']


def symbolic(n, m):
  """An interpolator of the real class with symbolic nodes, weights and points."""
  import sympy as sp
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType
  xs, ws, ys = sp.symbols(f'x0:{n}'), sp.symbols(f'w0:{n}'), sp.symbols(f'y0:{m}')
  g = Nodes1D(num_points=n, node_type=NodeType.NEWTON_COTES, node_values=np.array(xs, object))
  e = Nodes1D(num_points=m, node_type=NodeType.SINGLE, node_values=np.array(ys, object))

  class It(BarycentricInterpolator):
    def _barycentric_weights(self):
      return np.array(ws, object)
  return It, g, e, xs, ws, ys


def prove(chk):
  import sympy as sp
  chk.assume('real arithmetic instead of floating point for the formulas; numeric contracts bound the rounding',
             'np.polynomial.legendre.leggauss(n): ascending zeros of P_n, weights 2 / ((1 - x^2) P_n\'(x)^2)',
             'scipy.special.roots_jacobi(n, 1, 1): ascending zeros of P_{n+1}\', inside (-1, 1); eval_legendre(n, x) = P_n(x), nonzero at the nodes',
             'Legendre\'s differential equation; scipy.special.binom; np.linspace; np.kron, einsum, broadcasting (vf/nodalvc.py)')
  chk.trust('z3', 'Lean 4, Mathlib', 'contracts of numpy and scipy functions in vf/nodalvc.py', 'sympy rational normal forms (stand-ins)')

  def interp1d(n):
    def f():
      It, g, e, xs, ws, ys = symbolic(n, 2)
      M = It(1, g, e)._interpolation_matrix_1d()
      if M.shape != (2, n):
        raise Failed(f'shape {M.shape}')
      lw = [sp.prod([1 / (xs[i] - xs[j]) for j in range(n) if j != i]) for i in range(n)]
      for i in range(2):
        for j in range(n):
          lag = sp.prod([(ys[i] - xs[k]) / (xs[j] - xs[k]) for k in range(n) if k != j])
          c = sp.Symbol('c')     # weights are defined up to a common factor
          ent = M[i, j].subs({w: c * l for w, l in zip(ws, lw)}, simultaneous=True)
          if sp.cancel(sp.together(ent - lag)) != 0:
            raise Failed(f'entry {i},{j} is not the Lagrange basis value: {ent}')
    return f

  def diff1d(n):
    def f():
      It, g, e, xs, ws, ys = symbolic(n, 1)
      src = It(1, g, e)
      # the code stores into a float array: give it an object array instead
      import swirl_fem.core.interpolation as im
      real = im.np
      class NP:
        def __getattr__(self, k):
          return getattr(real, k)
        def zeros(self, shape, *a, **k):
          z = real.empty(shape, object); z[...] = sp.Integer(0); return z
      im.np = NP()
      try:
        D = src._differentiation_matrix_1d()
      finally:
        im.np = real
      lw = [sp.prod([1 / (xs[i] - xs[j]) for j in range(n) if j != i]) for i in range(n)]
      c, t = sp.symbols('c t')
      for i in range(n):
        for j in range(n):
          lag = sp.prod([(t - xs[k]) / (xs[j] - xs[k]) for k in range(n) if k != j])
          want = sp.diff(lag, t).subs(t, xs[i])
          ent = D[i, j].subs({w: c * l for w, l in zip(ws, lw)}, simultaneous=True)
          if sp.cancel(sp.together(ent - want)) != 0:
            raise Failed(f'entry {i},{j} is not the derivative of the Lagrange basis: {ent}')
    return f
  def upto(f, ns):
    def g():
      for n in ns:
        f(n)()
    return g
  ZB = 'entries for every number of nodes, z3'
  chk.oblige('Lagrange bases: values, derivatives, unity, reproduction, tensor products, weights up to a factor', nodalvc.lemmas, 'Lean 4 + Mathlib')
  chk.oblige('_interpolation_matrix_1d: barycentric form away from the nodes, rows of the identity at them', nodalvc.interp_contract, ZB, F[1:2],
             stand_in=('n <= 5 symbolic nodes', upto(interp1d, range(1, 6))))
  chk.oblige('_differentiation_matrix_1d: derivatives of the basis at the nodes', nodalvc.diff_contract, ZB, F[2:3],
             stand_in=('n <= 4 symbolic nodes', upto(diff1d, range(1, 5))))

  def tensor(ndim, grad):
    def f():
      from swirl_fem.core.interpolation import BarycentricInterpolator
      It, g, e, *_ = symbolic(2, 3)
      A = np.array(sp.symbols('a0:6'), object).reshape(3, 2)
      D = np.array(sp.symbols('d0:4'), object).reshape(2, 2)

      class It2(BarycentricInterpolator):
        def _interpolation_matrix_1d(self):
          return A

        def _differentiation_matrix_1d(self):
          return D
      it = It2(ndim, g, e)
      AD = A @ D
      M = it.interpolation_matrix_grad() if grad else it.interpolation_matrix()
      for q, qi in enumerate(itertools.product(range(3), repeat=ndim)):
        for p, pi in enumerate(itertools.product(range(2), repeat=ndim)):
          for k in range(ndim if grad else 1):
            want = sp.prod([(AD if grad and a == k else A)[qi[a], pi[a]] for a in range(ndim)])
            got = M[q, p, k] if grad else M[q, p]
            if sp.expand(got - want) != 0:
              raise Failed(f'entry {q},{p},{k}: {got} != {want}')
      if M.shape != ((3 ** ndim, 2 ** ndim, ndim) if grad else (3 ** ndim, 2 ** ndim)):
        raise Failed(f'shape {M.shape}')
    return f
  for ndim in (1, 2, 3):
    for grad in (0, 1):
      g = '_grad' if grad else ''
      chk.oblige(f'interpolation_matrix{g}: tensor order[ndim {ndim}]', lambda: nodalvc.tensor_contract(ndim, grad), ZB, F[3 + grad:4 + grad],
                 stand_in=('3x2 reference matrices with symbolic entries', tensor(ndim, grad)))
      chk.oblige(f'interpolate{g}: applies the matrix[ndim {ndim}]', lambda: nodalvc.interpolate_contract(ndim, grad), ZB, F[5 + grad:6 + grad],
                 stand_in=('runtime contracts at thorough size', lambda: chk.deep(contracts)))

  def weights(fam, n):
    def f():
      from swirl_fem.core.interpolation import BarycentricInterpolator
      g = fe.nodes(fam, n)
      w = np.asarray(BarycentricInterpolator(1, g, g)._barycentric_weights(), float)
      x = [Fraction(float(v)) for v in g.node_values]
      if fam == 'nc':
        x = [Fraction(-1) + Fraction(2 * i, n - 1) for i in range(n)] if n > 1 else [Fraction(-1)]
      prods = [Fraction(float(w[i])) * functools.reduce(lambda a, b: a * b, [x[i] - x[j] for j in range(n) if j != i], Fraction(1))
               for i in range(n)]
      ref = prods[0]
      tol = Fraction(1, 10**9)
      if ref == 0 or any(abs(p / ref - 1) > tol for p in prods):
        raise Failed(f'weights are not proportional to the Lagrange weights: {[float(p / prods[0]) if prods[0] else 0 for p in prods]}',
                     model=dict(family=fam, n=n))
    return f
  for fam in ('nc', 'gl', 'gll'):
    ns = range(1 if fam == 'gl' else 2 if fam == 'gll' else 1, 31)
    bound = ('n <= 30, exact rationals', upto(lambda n: weights(fam, n), ns))
    chk.oblige(f'nodes of {fam}: ascending, of the family', lambda: nodalvc.nodes_contract(fam), ZB, ['Nodes1D.create'], stand_in=bound)
    if fam != 'nc':
      chk.oblige(f'weights of the rule of {fam}', lambda: nodalvc.quad_contract(fam), ZB, ['Quadrature1D.create_from_nodes_1d'], stand_in=bound)
    chk.oblige(f'_barycentric_weights of {fam}: the Lagrange weights up to a factor', lambda: nodalvc.weights_contract(fam), ZB, F[:1], stand_in=bound)
  wrong = nodalvc.refuted
  chk.canary('negated entries are refuted', wrong(lambda: nodalvc.interp_contract(True)), ZB)
  chk.canary('negated derivatives are refuted', wrong(lambda: nodalvc.diff_contract(True)), ZB)
  chk.canary('gradient components in another order are refuted', wrong(lambda: nodalvc.tensor_contract(2, 1, True)), ZB)
  chk.canary('another functional is refuted', wrong(lambda: nodalvc.interpolate_contract(2, 0, True)), ZB)
  for fam in ('nc', 'gl', 'gll'):
    chk.canary(f'weights of {fam} without alternating signs are refuted', wrong(lambda: nodalvc.weights_contract(fam, True)), ZB)


def legv(n, x):
  """Legendre values and derivatives by recurrence; (deg, points)"""
  x = np.asarray(x, float)
  P = [np.ones_like(x), x]
  D = [np.zeros_like(x), np.ones_like(x)]
  for k in range(1, n):
    P.append(((2 * k + 1) * x * P[k] - k * P[k - 1]) / (k + 1))
    D.append(D[k - 1] + (2 * k + 1) * P[k])
  return np.array(P[:n]), np.array(D[:n])


def interp_contract(ndim, g, e):
  import jax.numpy as jnp
  from swirl_fem.core.interpolation import BarycentricInterpolator
  it1 = BarycentricInterpolator(1, g, e)
  n, m = g.num_points, len(e.node_values)
  cond = (1 if g.node_type.value != 'newton_cotes' else 2. ** n / max(1, n)) * 20
  # growth of the basis outside the interval, per point
  y = np.maximum(1., np.abs(np.asarray(e.node_values, float)))
  ext = (y + np.sqrt(y * y - 1)) ** n
  Pg, Dg = legv(n, g.node_values)
  Pe, De = legv(n, e.node_values)
  with np.errstate(all='ignore'):
    M = np.asarray(it1.interpolation_matrix())
    G = np.asarray(it1.interpolation_matrix_grad())
  tol = 1e-13 * n * n * cond * ext[:, None]
  if M.shape != (m, n) or G.shape != (m, n, 1):
    return dict(shape=[M.shape, G.shape])
  if not (np.abs(M @ Pg.T - Pe.T) <= tol * 10).all():
    return dict(what='interpolation not exact', err=np.abs(M @ Pg.T - Pe.T).max())
  if not (np.abs(G[..., 0] @ Pg.T - De.T) <= tol * 100 * n * n).all():
    return dict(what='derivative not exact', err=np.abs(G[..., 0] @ Pg.T - De.T).max())
  if not (np.abs(M.sum(1) - 1) <= tol[:, 0] * 10).all():
    return 'weights do not sum to one'
  for i, y in enumerate(e.node_values):
    hit = np.flatnonzero(g.node_values == y)
    if len(hit):
      u = np.zeros(n); u[hit[0]] = 1
      if not np.array_equal(M[i], u):
        return dict(what='grid point not reproduced exactly', row=M[i])
  if ndim > 1:
    it = BarycentricInterpolator(ndim, g, e)
    with np.errstate(all='ignore'):
      Mn, Gn = np.asarray(it.interpolation_matrix()), np.asarray(it.interpolation_matrix_grad())
    A, B = M, G[..., 0]
    def kron(ms):
      out = ms[0]
      for x in ms[1:]:
        out = np.einsum('ij,kl->ikjl', out, x).reshape(out.shape[0] * x.shape[0], -1)
      return out
    if Mn.shape != (m ** ndim, n ** ndim) or Gn.shape != (m ** ndim, n ** ndim, ndim):
      return dict(shape=[Mn.shape, Gn.shape])
    if not np.allclose(Mn, kron([A] * ndim), rtol=1e-12, atol=1e-12):
      return 'tensor order of the interpolation matrix'
    for k in range(ndim):
      W = kron([B if a == k else A for a in range(ndim)])
      if not np.allclose(Gn[..., k], W, rtol=1e-12, atol=1e-12 * max(1, np.abs(W).max())):
        return dict(what='gradient component', axis=k)
  else:
    it, Mn, Gn = it1, M, G
  rng = np.random.default_rng(n * 100 + m)
  x = rng.normal(size=n ** ndim)
  with np.errstate(all='ignore'):
    a, b = np.asarray(it.interpolate(jnp.asarray(x))), np.asarray(it.interpolate_grad(jnp.asarray(x)))
  if a.shape != (m ** ndim,) or not np.allclose(a, Mn @ x, rtol=1e-11, atol=1e-11 * max(1, np.abs(Mn).max())):
    return dict(what='interpolate', got=a, want=Mn @ x)
  w = np.einsum('qpd,p->qd', Gn, x)
  if b.shape != w.shape or not np.allclose(b, w, rtol=1e-10, atol=1e-10 * max(1, np.abs(w).max())):
    return dict(what='interpolate_grad')


def many_points(fam, n, pts):
  """large grids: polynomials of low degree, well inside the interval (the basis grows only near the ends)"""
  from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType
  g = fe.nodes(fam, n)
  e = Nodes1D(num_points=len(pts), node_type=NodeType.SINGLE, node_values=pts)
  it = BarycentricInterpolator(1, g, e)
  Pg, _ = legv(8, g.node_values)
  Pe, De = legv(8, pts)
  with np.errstate(all='ignore'):
    M = np.asarray(it.interpolation_matrix())
    G = np.asarray(it.interpolation_matrix_grad())[..., 0]
  a, b = np.abs(M @ Pg.T - Pe.T).max(), np.abs(G @ Pg.T - De.T).max()
  if not (a <= 1e-9 and b <= 1e-6):
    return dict(interpolation_error=a, derivative_error=b)


def contracts(chk):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  rng = np.random.default_rng(chk.seed)
  fams = ['nc', 'gl', 'gll']
  for fam in fams:
    for n in range(1 if fam != 'gll' else 2, chk.n(13, 30) if fam == 'nc' else chk.n(25, 60)):
      g = fe.nodes(fam, n)
      sets = [fe.nodes(f2, m) for f2, m in (('gl', n), ('gll', max(2, n)), ('nc', n + 1), ('gl', max(1, n // 2)))]
      sets.append(g)
      vals = np.concatenate([rng.uniform(-1, 1, 3), [-1, 1, 0.], g.node_values[:2], g.node_values[-1:] - 1e-13,
                             [1 + 2 / max(1, n - 1)],
                             # close to, but not at, grid points
                             rng.choice(g.node_values, 7) + rng.choice([-1, 1], 7) * 10. ** -np.arange(3, 16, 2)])
      sets.append(Nodes1D(num_points=len(vals), node_type=NodeType.SINGLE, node_values=vals))
      sets.append(Nodes1D.create_single_point(np.array(1 + 2 / max(1, n - 1))))
      for e in sets:
        chk.case('1d', lambda: interp_contract(1, g, e), dict(family=fam, n=n, points=e.node_values))
  for fam in fams:
    for n in chk.n((26, 36, 50, 64), (26, 32, 33, 34, 35, 36, 40, 50, 64)):
      pts = np.concatenate([rng.uniform(-.3, .3, 4), [0.]])
      chk.case('many points', lambda: many_points(fam, n, pts), dict(family=fam, n=n, points=pts))
  for ndim, top in ((2, 6), (3, 5)):
    for fam in fams:
      for n in range(1 if fam != 'gll' else 2, top):
        g = fe.nodes(fam, n)
        for f2, m in (('gl', 3), ('gll', 2), (fam, n), ('nc', 4)):
          chk.case(f'{ndim}d', lambda: interp_contract(ndim, g, fe.nodes(f2, m)), dict(ndim=ndim, family=fam, n=n, to=[f2, m]))

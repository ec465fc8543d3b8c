"""C09: quadrature rules."""
NOTE = ('Proved for every number of points: nodes and weights read off the Python source (z3, vf/nodalvc.py) are those of the rules whose '
        'exactness, symmetry and sums are theorems in Lean (lean/Quadrature.lean: Gauss to degree 2n-1, Lobatto to 2n-3, trapezoid). '
        'Assumed: what leggauss, roots_jacobi and eval_legendre compute, the defining properties of Legendre polynomials, real arithmetic. '
        'Rounding, and the library functions, are certified numerically for n <= 64 only.')
LEVEL = 'proof'
TECHNIQUE = ('function contracts on the Python source for every number of points (z3), exactness theorems in Lean 4; stand-ins: numeric '
             'certificates n <= 64, tensor order on symbolic entries')

import itertools
import numpy as np
from vf.core import Failed
from vf import fe, nodalvc
from vf.props.c08 import legv

F = ['Nodes1D.create', 'Quadrature1D.create', 'Quadrature1D.create_from_nodes_1d', 'Quadrature1D.weights_nd']


def rule_contract(fam, n):
  from swirl_fem.core.interpolation import Quadrature1D, NodeType
  g = fe.nodes(fam, n)
  q = Quadrature1D.create_from_nodes_1d(g)
  q2 = Quadrature1D.create(num_points=n, quadrature_type=g.node_type)
  x, w = np.asarray(g.node_values, float), np.asarray(q.weights, float)
  if x.shape != (n,) or w.shape != (n,) or g.num_points != n or q.num_points != n or q.nodes != g or q.quadrature_type != g.node_type:
    return dict(shape=[x.shape, w.shape])
  if not (np.array_equal(x, q2.nodes.node_values) and np.array_equal(w, q2.weights)):
    return 'create and create_from_nodes_1d differ'
  if not (np.diff(x) > 0).all() or x[0] < -1 or x[-1] > 1:
    return dict(nodes=x)
  if np.abs(x + x[::-1]).max() > 1e-14 or np.abs(w - w[::-1]).max() > 1e-13 or not (w > 0).all():
    return dict(what='symmetry or positivity', nodes=x, weights=w)
  if abs(w.sum() - 2) > 1e-12:
    return dict(sum=w.sum())
  if fam != 'gl' and not (x[0] == -1 and x[-1] == 1):
    return dict(ends=[x[0], x[-1]])
  if g.is_continuous() != (fam != 'gl'):
    return 'continuity flag'
  if fam == 'nc':
    h = 2 / (n - 1)
    want = np.full(n, h); want[[0, -1]] = h / 2
    if np.abs(w - want).max() > 1e-14 or np.abs(x - (-1 + h * np.arange(n))).max() > 1e-14:
      return dict(what='composite trapezoid', weights=w, want=want)
    return
  deg = 2 * n - 1 if fam == 'gl' else 2 * n - 3
  P, _ = legv(deg + 1, x)
  mom = P[: deg + 1] @ w
  mom[0] -= 2
  if np.abs(mom).max() > 1e-11:
    return dict(what='moments', degree=int(np.abs(mom).argmax()), err=float(np.abs(mom).max()))


def nd_contract(fam, n, ndim):
  from swirl_fem.core.interpolation import Quadrature1D
  q = Quadrature1D.create_from_nodes_1d(fe.nodes(fam, n))
  W = np.asarray(q.weights_nd(ndim))
  want = np.array([np.prod([q.weights[i] for i in ix]) for ix in itertools.product(range(n), repeat=ndim)])
  if W.shape != want.shape or not np.allclose(W, want, rtol=1e-13, atol=0):
    return dict(got=W, want=want)


def prove(chk):
  import sympy as sp

  def one(fam, n):
    def f():
      r = rule_contract(fam, n)
      if r:
        raise Failed(str(r), model=dict(family=fam, n=n))
    return f
  chk.assume('real arithmetic instead of floating point; numeric contracts bound the rounding',
             'np.polynomial.legendre.leggauss(n): ascending zeros of P_n, weights 2 / ((1 - x^2) P_n\'(x)^2)',
             'scipy.special.roots_jacobi(n, 1, 1): ascending zeros of P_{n+1}\', inside (-1, 1); eval_legendre(n, x) = P_n(x)',
             'P_n: of degree n, orthogonal to lower degrees, even or odd, +-1 at the ends, Legendre\'s differential equation')
  chk.trust('z3', 'Lean 4, Mathlib', 'contracts of numpy and scipy functions in vf/nodalvc.py')
  Z = 'nodes and weights for every number of points, z3'
  chk.oblige('exactness of Gauss, Lobatto and trapezoidal rules; symmetry', lambda: nodalvc.lemmas('Quadrature'), 'Lean 4 + Mathlib')
  for fam in ('nc', 'gl', 'gll'):
    def bounded(fam=fam):
      for n in range(1 if fam == 'gl' else 2, 65):
        one(fam, n)()
    bound = ('n <= 64, evaluated', bounded)
    chk.oblige(f'nodes of {fam}: ascending, of the family', lambda: nodalvc.nodes_contract(fam), Z, F[:1], stand_in=bound)
    chk.oblige(f'weights of {fam}: those of the rule, positive, symmetric', lambda: nodalvc.quad_contract(fam), Z, F[2:3], stand_in=bound)
    chk.oblige(f'the rule of {fam} is made on the nodes of {fam}', lambda: nodalvc.create_contract(fam), Z, F[1:2], stand_in=bound)
    chk.oblige(f'nodes and weights of {fam} to rounding', bounded, 'evaluation', F, 'n <= 64')
    chk.canary(f'half the weights of {fam} are refuted', nodalvc.refuted(lambda: nodalvc.quad_contract(fam, True)), Z)
  chk.canary('nodes half as far apart are refuted', nodalvc.refuted(lambda: nodalvc.nodes_contract('nc', True)), Z)

  def tensor(ndim):
    def f():
      from swirl_fem.core.interpolation import Quadrature1D
      w = np.array(sp.symbols('w0:3'), object)
      q = Quadrature1D(num_points=3, quadrature_type=None, nodes=None, weights=w)
      W = q.weights_nd(ndim)
      want = [sp.prod(t) for t in itertools.product(w, repeat=ndim)]
      if list(W.shape) != [3 ** ndim] or any(sp.expand(a - b) != 0 for a, b in zip(W, want)):
        raise Failed(f'{W} != {want}')
    return f
  for ndim in (1, 2, 3):
    chk.oblige(f'weights_nd: products in tensor order[ndim {ndim}]', lambda: nodalvc.nd_weights_contract(ndim), Z, F[3:],
               stand_in=('3 symbolic weights', tensor(ndim)))


def contracts(chk):
  for fam in ('nc', 'gl', 'gll'):
    for n in list(range(1 if fam == 'gl' else 2, 20)) + [33, 65, 80, 100]:
      chk.case('rule', lambda: rule_contract(fam, n), dict(family=fam, n=n))
    for ndim in (1, 2, 3):
      for n in (2, 3, 5):
        chk.case('nd', lambda: nd_contract(fam, n, ndim), dict(family=fam, n=n, ndim=ndim))

  def unknown():
    from swirl_fem.core.interpolation import Nodes1D, NodeType
    try:
      Nodes1D.create(num_points=2, node_type=NodeType.SINGLE)
    except ValueError:
      return None
    return 'accepted'
  chk.case('family', unknown)

"""C19: time-stepping coefficients are exact to their order."""
NOTE = ('Proved for every order: the coefficients read off the Python source are values and scaled derivatives of the Lagrange basis of '
        'k + 1 equispaced nodes (z3, the interpolator by its contract, which C08 proves), and those are exact for every polynomial, step '
        'size and start time (Lean). Real arithmetic; rounding is bounded numerically up to order 13 (19).')
LEVEL = 'proof'
TECHNIQUE = ('function contracts on the Python source for every order k (z3), exactness theorems in Lean 4; stand-in: exact rational '
             'exactness conditions, k <= 12')

from fractions import Fraction
import numpy as np
from vf.core import Failed
from vf import nodalvc

F = ['navier_stokes.bdfk_coeffs', 'navier_stokes.extk_coeffs', 'BarycentricInterpolator']


def solve(k, rhs):
  """the unique c with sum_i c_i (i-k)^d = rhs(d), d=0..k, over the rationals"""
  n = k + 1
  A = [[Fraction(i - k) ** d for i in range(n)] + [Fraction(rhs(d))] for d in range(n)]
  for c in range(n):
    p = next(r for r in range(c, n) if A[r][c] != 0)
    A[c], A[p] = A[p], A[c]
    A[c] = [v / A[c][c] for v in A[c]]
    for r in range(n):
      if r != c and A[r][c] != 0:
        A[r] = [a - A[r][c] * b for a, b in zip(A[r], A[c])]
  return [A[r][n] for r in range(n)]


def coeff_contract(k):
  from swirl_fem.navier_stokes import navier_stokes as ns
  for name, fn, rhs in (('bdf', ns.bdfk_coeffs, lambda d: 1 if d == 1 else 0),
                        ('ext', ns.extk_coeffs, lambda d: 1)):
    with np.errstate(all='ignore'):
      c = np.asarray(fn(k), float)
    want = np.array([float(x) for x in solve(k, rhs)])
    if c.shape != (k + 1,):
      return dict(name=name, shape=c.shape)
    if not np.abs(c - want).max() <= 1e-10 * max(1, np.abs(want).max()):
      return dict(name=name, k=k, got=c, want=want)


def prove(chk):
  chk.assume('real arithmetic instead of floating point; numeric contracts bound the rounding', 'np.linspace (vf/nodalvc.py)',
             'the contract of BarycentricInterpolator (C08)')
  chk.trust('z3', 'Lean 4, Mathlib')

  def bounded():
    for k in range(1, 13):
      r = coeff_contract(k)
      if r:
        raise Failed(str(r), model=dict(k=k))
  Z = 'coefficients for every order, z3'
  bound = ('k <= 12, exact rationals', bounded)
  chk.oblige('exactness of extrapolation and backward differences, every order, step and start', nodalvc.lemmas, 'Lean 4 + Mathlib')
  chk.oblige('equispaced nodes, in order', lambda: nodalvc.nodes_contract('nc'), Z, ['Nodes1D.create'], stand_in=bound)
  for i, f in enumerate(('bdfk_coeffs', 'extk_coeffs')):
    chk.oblige(f'{f}: the Lagrange basis of k + 1 equispaced nodes', lambda: nodalvc.coeffs_contract(f), Z, F[i:i + 1], stand_in=bound)
    chk.canary(f'{f} with another scale is refuted', nodalvc.refuted(lambda: nodalvc.coeffs_contract(f, True)), Z)


def contracts(chk):
  for k in range(1, chk.n(14, 20)):
    chk.case('coefficients', lambda: coeff_contract(k), dict(k=k))

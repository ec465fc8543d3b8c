"""C05: facet enumeration and orientation tables."""
NOTE = ('Selection by facet type and orientation tables are proved for every number of points per axis, in each dimension a '
        'mesh of this library can have (0-3), from the current source run on arrays with symbolic axis sizes (vf/gridvc.py); the '
        'enumeration of facet types depends on the dimension only and is run for 0-4. Integers are mathematical. The same '
        'contracts run on concrete sizes.')
LEVEL = 'proof'
TECHNIQUE = ('function contracts; the source run on symbolic-size tensor-product arrays (entries are polynomials in digits and sizes), '
             'obligations are polynomial identities; finite enumeration over dimensions')

import itertools, math
import numpy as np
from vf.core import Failed

F = ['facet_util.get_facet_types', 'facet_util.slice_from_facet_type', 'facet_util.get_orderings_mapping']


def enum_contract(n):
  from swirl_fem.common import facet_util as fu
  fs = [tuple(f) for f in fu.get_facet_types(n)]
  if len(fs) != 3 ** n or len(set(fs)) != 3 ** n or any(len(f) != n for f in fs):
    return dict(all=len(fs))
  for k in range(-1, n + 2):
    g = [tuple(f) for f in fu.get_facet_types(n, facet_ndim=k)]
    want = {f for f in fs if sum(t is fu.FacetDimType.INNER for t in f) == k}
    if len(g) != len(set(g)) or set(g) != want:
      return dict(k=k, got=len(g))
    if len(g) != (math.comb(n, k) * 2 ** (n - k) if 0 <= k <= n else 0):
      return dict(k=k, got=len(g))


def slice_contract(n, m):
  """m points per axis"""
  from swirl_fem.common import facet_util as fu
  e = np.arange(m ** n).reshape([m] * n)
  cnt = np.zeros(m ** n, int)
  for f in fu.get_facet_types(n):
    for inner in (True, False):
      s = fu.slice_from_facet_type(f, interior_nodes_only=inner)
      got = np.asarray(e[s]).ravel().tolist()
      want = []
      rng = [{fu.FacetDimType.FIRST: [0], fu.FacetDimType.LAST: [m - 1],
              fu.FacetDimType.INNER: list(range(1, m - 1)) if inner else list(range(m))}[t] for t in f]
      for ix in itertools.product(*rng):
        k = 0
        for i in ix:
          k = k * m + i
        want.append(k)
      if got != want:
        return dict(facet=[t.name for t in f], inner=inner, got=got, want=want)
      if inner:
        cnt[got] += 1
  if n and (cnt != 1).any():
    return dict(cover=cnt)


def ordering_contract(d, m):
  from swirl_fem.common import facet_util as fu
  table = fu.get_orderings_mapping(d, m)
  want = {}
  for perm in itertools.permutations(range(d)):
    for flips in itertools.product((0, 1), repeat=d):
      def oriented(k):
        """old linear index at every new position, for k points per axis"""
        out = []
        for ix in itertools.product(range(k), repeat=d):
          src = [0] * d
          for a in range(d):
            src[perm[a]] = k - 1 - ix[a] if flips[a] else ix[a]
          lin = 0
          for s in src:
            lin = lin * k + s
          out.append(lin)
        return out
      want[tuple(oriented(2))] = oriented(m)
  if len(want) != 2 ** d * math.factorial(d):
    raise AssertionError
  got = {tuple(int(x) for x in k): np.asarray(v).ravel().tolist() for k, v in table.items()}
  if set(got) != set(want):
    return dict(keys=len(got), want=len(want))
  for k in want:
    if got[k] != want[k]:
      return dict(key=k, got=got[k], want=want[k])


def prove(chk):
  def all_(f, cases):
    def run():
      for c in cases:
        r = f(*c)
        if r:
          raise Failed(str(r), model=dict(args=c))
      return f'{len(cases)} configurations'
    return run
  from vf import cubevc
  b = 'up to 7 points per axis'
  chk.oblige('get_facet_types.post', all_(enum_contract, [(n,) for n in range(5)]), 'evaluation for the dimensions 0-4', F[:1])
  for n in range(4):
    chk.oblige(f'slice_from_facet_type.post[dim {n}]', lambda n=n: cubevc.slices(n), 'gridvc', F[1:2],
               stand_in=(b, all_(slice_contract, [(n, m) for m in range(2, 8)])))
    chk.oblige(f'get_orderings_mapping.post[dim {n}]', lambda n=n: cubevc.ordering(n), 'gridvc', F[2:],
               stand_in=(b, all_(ordering_contract, [(n, m) for m in range(0, 8)])))
  chk.canary('the axes of a selection are reversed', lambda: cubevc.slices(2, True), 'gridvc')
  chk.canary('the ordering table is transposed', lambda: cubevc.ordering(2, True), 'gridvc')
  chk.assume(cubevc.ASSUME, 'at least two points per axis for the selections, at least one for the tables')
  chk.trust('sympy polynomial arithmetic')


def contracts(chk):
  for n in range(5):
    chk.case('facets', lambda: enum_contract(n), dict(ndim=n))
  for n in range(4):
    for m in [2, 3, 5, 9] + ([14] if n < 3 or chk.thorough else []):
      chk.case('slices', lambda: slice_contract(n, m), dict(ndim=n, points=m))
    for m in [0, 1, 2, 3, 8, 11]:
      chk.case('orderings', lambda: ordering_contract(n, m), dict(ndim=n, points=m))

"""C06: unit cube meshes."""
NOTE = ('unit_cube_mesh is proved for every number of elements N >= 1, all corner coordinates a, b, every set of periodic axes and '
        'every block partition, in 1, 2 and 3 dimensions, from the current source run on arrays with symbolic axis sizes '
        '(vf/gridvc.py). Real arithmetic for the coordinates, mathematical integers. The same contract, written against an '
        'independent coordinate-set oracle, runs on concrete sizes.')
LEVEL = 'proof'
TECHNIQUE = ('function contract; the source run on symbolic-size tensor-product arrays and lists (loops by their generic iteration), '
             'obligations are polynomial identities in N and the digits')

import itertools
import numpy as np
from vf.core import Failed


def cube_contract(N, ndim, a, b, periodic, parts):
  from swirl_fem.common import premesh_commons as pc
  kw = {}
  if (a, b) != (0., 1.):
    kw = dict(a=a, b=b)
  pa = None if parts is None else np.array(parts)
  pb = None if pa is None else pa.copy()
  pre = pc.unit_cube_mesh(N, ndim=ndim, periodic_dims=periodic, partitions=pa, **kw)
  if pa is not None and not np.array_equal(pa, pb):
    return 'partitions argument modified'
  X = np.asarray(pre.node_coords)
  if X.shape != ((N + 1) ** ndim, ndim):
    return dict(coords=X.shape)
  G = (X - a) / (b - a) * N
  K = np.rint(G).astype(int)
  tol = 1e-9 * max(1, abs(a), abs(b)) / abs(b - a) * N
  if np.abs(G - K).max() > tol or K.min() < 0 or K.max() > N or len({tuple(k) for k in K.tolist()}) != len(K):
    return dict(what='not the grid nodes', coords=X)
  el = np.asarray(pre.elements)
  if el.shape != (N ** ndim, 2 ** ndim) or el.dtype.kind != 'i' or el.min() < 0 or el.max() >= len(X):
    return dict(elements=el.shape)
  cells = []
  corners = list(itertools.product((0, 1), repeat=ndim))
  for e in el.tolist():
    c = K[e]
    base = tuple(c[0].tolist())
    if [tuple(x) for x in (c - c[0]).tolist()] != corners:
      return dict(what='element is not a cell in tensor order', element=e)
    cells.append(base)
  if len(set(cells)) != N ** ndim:
    return 'cells repeated'
  # boundary
  def facet_key(f):
    return frozenset(tuple(x) for x in K[list(f)].tolist())
  want = set()
  for ax in range(ndim):
    if ax in periodic:
      continue
    for side in (0, N):
      for c in itertools.product(range(N), repeat=ndim - 1):
        pts = []
        for o in itertools.product((0, 1), repeat=ndim - 1):
          p = [ci + oi for ci, oi in zip(c, o)]
          p.insert(ax, side)
          pts.append(tuple(p))
        want.add(frozenset(pts))
  groups = dict(pre.physical_groups)
  if not want:
    if groups:
      return dict(groups=list(groups))
  else:
    if list(groups) != ['boundary']:
      return dict(groups=list(groups))
    f = np.asarray(groups['boundary'])
    if f.shape != (len(want), 2 ** (ndim - 1)):
      return dict(boundary=f.shape, want=len(want))
    if {facet_key(x) for x in f.tolist()} != want:
      return dict(boundary=f)
    for x in f.tolist():    # tensor-product order of the facet corners
      d = K[x] - K[x[0]]
      if ndim == 3 and tuple(d[3]) != tuple(d[1] + d[2]):
        return dict(facet=x)
  # links
  L = pre.periodic_links
  if not periodic:
    if L is not None and len(L):
      return dict(links=L)
  else:
    L = np.asarray(L)
    fset = set()
    for A, B in L.tolist():
      ka, kb = K[A], K[B]
      dif = kb - ka
      ax = np.flatnonzero(dif[0])
      if len(ax) != 1 or (dif != dif[0]).any() or abs(dif[0][ax[0]]) != N or ax[0] not in periodic:
        return dict(what='link is not between opposite facets', link=[A, B])
      key = (int(ax[0]), facet_key(A if dif[0][ax[0]] > 0 else B))
      if key in fset:
        return dict(what='facet linked twice', link=[A, B])
      fset.add(key)
      lo = A if dif[0][ax[0]] > 0 else B
      kk = K[lo]
      if (kk[:, ax[0]] != 0).any():
        return dict(what='not the first side', link=[A, B])
      span = kk.max(0) - kk.min(0)
      if span.sum() != ndim - 1 or len(facet_key(lo)) != 2 ** (ndim - 1):
        return dict(what='not a facet', link=[A, B])
      if ndim == 3 and not np.array_equal(kk[3] - kk[0], kk[1] + kk[2] - 2 * kk[0]):
        return dict(what='facet order', link=[A, B])
    if len(fset) != len(set(periodic)) * N ** (ndim - 1):
      return dict(links=len(fset))
  if parts is None:
    if pre.partitions is not None:
      return 'unexpected partitions'
  else:
    P = np.asarray(pre.partitions)
    if P.shape != (len(el),):
      return dict(partitions=P.shape)
    for base, p in zip(cells, P.tolist()):
      w = pb[tuple(base[d] // (N // pb.shape[d]) for d in range(ndim))]
      if w != p:
        return dict(what='partition', cell=base, got=p, want=int(w))
  if pre.order != 1:
    return dict(order=pre.order)


def subsets(n):
  return [s for k in range(n + 1) for s in itertools.combinations(range(n), k)]


def configs(maxn):
  for ndim in (1, 2, 3):
    for N in range(1, maxn[ndim] + 1):
      for per in subsets(ndim):
        yield N, ndim, 0., 1., per, None


def prove(chk):
  def run(ndim, per, parts):
    def f():
      cnt = 0
      for N in range(1, {1: 16, 2: 9, 3: 5}[ndim] + 1):
        for pa in part_arrays(N, ndim)[1:] if parts else [None]:
          r = cube_contract(N, ndim, 0., 1., per, pa); cnt += 1
          if r:
            raise Failed(str(r), model=dict(N=N, ndim=ndim, periodic=per, partitions=pa))
      return f'{cnt} configurations'
    return f
  from vf import cubevc
  for ndim in (1, 2, 3):
    for per in subsets(ndim):
      for parts in (False, True):
        chk.oblige(f"unit_cube_mesh.post[ndim {ndim}, periodic {per}{', partitions' if parts else ''}]",
                   lambda a=(ndim, per, parts): cubevc.unit_cube(*a), 'gridvc',
                   ['premesh_commons.unit_cube_mesh', 'premesh_commons._unit_cube_facet_elements'],
                   stand_in=('N <= 16 (1D), N <= 9 (2D), N <= 5 (3D), block partitions', run(ndim, per, parts)))
  chk.canary('the axes of the coordinates are reversed', lambda: cubevc.unit_cube(3, (), False, True), 'gridvc')
  chk.assume(cubevc.ASSUME, 'real arithmetic for the coordinates', 'the block counts divide the number of elements (precondition, asserted by the code)')
  chk.trust('sympy polynomial arithmetic')


def part_arrays(N, ndim):
  out = [None]
  divs = [d for d in range(1, N + 1) if N % d == 0]
  for shp in itertools.product(divs, repeat=ndim):
    if np.prod(shp) <= 12:
      k = int(np.prod(shp))
      out.append(np.arange(k).reshape(shp).tolist())
      if k > 1:
        out.append(((np.arange(k) * 5 + 3) % (k + 1)).reshape(shp).tolist())
  return out[:14]


def contracts(chk):
  rng = np.random.default_rng(chk.seed)
  for ndim, Ns in ((1, (1, 2, 7, 33)), (2, (1, 2, 5, 12)), (3, (1, 2, 4))):
    for N in Ns:
      for per in subsets(ndim):
        pl = part_arrays(N, ndim)
        parts = pl[int(rng.integers(len(pl)))]
        a = float(rng.uniform(-5, 5)); b = a + float(rng.uniform(.01, 7))
        if rng.random() < .3:
          per = tuple(reversed(per))
        chk.case('cube', lambda: cube_contract(N, ndim, a, b, per, parts),
                 dict(N=N, ndim=ndim, a=a, b=b, periodic=per, partitions=parts))

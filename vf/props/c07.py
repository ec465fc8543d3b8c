"""C07: refinement yields a conforming mesh whose shared facets share nodes."""
NOTE = ('Bounded: the refiner runs under its contract (node identity decided by exact multilinear weights of the corner '
        'nodes, not by coordinates) on every relative orientation of two neighbouring elements and on sampled '
        'unstructured meshes in 1-3 dimensions, all node families, groups, links and partitions.')
LEVEL = 'other'
TECHNIQUE = 'function contract with a topological node-identity oracle; bounded stand-in, all neighbour orientations'

import itertools
import numpy as np
from vf.core import Failed
from vf import fe

FUNCS = ['mesh_refiner.refine_premesh', 'mesh_refiner._MeshRefiner', 'facet_util.get_orderings_mapping',
         'facet_util.slice_from_facet_type']


def keys(facets, d, nodes):
  """topological identity of every tensor-product node of every facet: the corner
  nodes with their multilinear weights."""
  x = np.asarray(nodes, float)
  one = np.stack([(1 - x) / 2, (1 + x) / 2], -1)      # (m, 2)
  W = np.ones((1, 1))
  for _ in range(d):
    W = np.einsum('ab,cd->acbd', W, one).reshape(W.shape[0] * len(x), -1)
  sel = [[(c, round(w, 9)) for c, w in enumerate(row) if abs(w) > 1e-12] for row in W]
  return [[frozenset((int(f[c]), w) for c, w in s) for s in sel] for f in np.asarray(facets)], W


def refine_contract(pre, gp):
  from swirl_fem.core.mesh_refiner import refine_premesh
  snap = dict(c=np.array(pre.node_coords), e=np.array(pre.elements), g={k: np.array(v) for k, v in pre.physical_groups.items()},
              l=None if pre.periodic_links is None else np.array(pre.periodic_links))
  out = refine_premesh(pre, gp)
  d, m = snap['c'].shape[-1], gp.num_points
  X, el = np.asarray(out.node_coords), np.asarray(out.elements)
  if el.shape != (len(snap['e']), m ** d) or el.dtype.kind != 'i':
    return dict(elements=el.shape)
  if out.gridpoints_1d != gp or out.order != m - 1 or out.ndim != d:
    return dict(order=out.order)
  if el.min() < 0 or el.max() >= len(X):
    return dict(what='element entries out of range', lo=int(el.min()), hi=int(el.max()), nodes=len(X))
  K, W = keys(snap['e'], d, gp.node_values)
  want = np.einsum('qc,ecd->eqd', W, snap['c'][snap['e']])
  err = np.abs(X[el] - want).max()
  if not err <= 1e-11 * max(1, np.abs(want).max()):
    e, q = np.unravel_index(np.abs(X[el] - want).max(-1).argmax(), el.shape)
    return dict(what='coordinates', element=int(e), position=int(q), got=X[el[e, q]], want=want[e, q])
  cont = gp.node_values[0] == -1 and gp.node_values[-1] == 1
  if len(np.unique(el)) != len(X):
    return dict(what='unused nodes', nodes=len(X), used=len(np.unique(el)))
  if not cont:
    if len(X) != el.size:
      return dict(what='discontinuous elements share nodes')
    if dict(out.physical_groups) or out.periodic_links is not None:
      pass
    if not same(out.partitions, pre.partitions):
      return 'partitions changed'
    return None
  k2n, n2k = {}, {}
  for e in range(len(el)):
    for q in range(m ** d):
      k, n = K[e][q], int(el[e, q])
      if k2n.setdefault(k, n) != n:
        return dict(what='one point, two nodes', element=e, position=q, nodes=[k2n[k], n])
      if n2k.setdefault(n, k) != k:
        return dict(what='two points, one node', element=e, position=q, node=n)
  if set(out.physical_groups) != set(snap['g']):
    return dict(groups=list(out.physical_groups))
  for name, f in snap['g'].items():
    kf, _ = keys(f, d - 1, gp.node_values)
    want = sorted(sorted(k2n[k] for k in row) for row in kf)
    got = np.asarray(out.physical_groups[name])
    if got.ndim != 2 or sorted(sorted(r) for r in got.tolist()) != want:
      return dict(group=name, got=got, want=want)
  if snap['l'] is None:
    if out.periodic_links is not None:
      return 'links appeared'
  else:
    L = np.asarray(out.periodic_links)
    ka, _ = keys(snap['l'][:, 0], d - 1, gp.node_values)
    kb, _ = keys(snap['l'][:, 1], d - 1, gp.node_values)
    want = sorted((k2n[a], k2n[b]) for ra, rb in zip(ka, kb) for a, b in zip(ra, rb))
    if L.ndim != 3 or L.shape[1] != 2:
      return dict(links=L.shape)
    got = sorted((int(a), int(b)) for p in L for a, b in zip(p[0], p[1]))
    if got != want:
      return dict(what='links', got=got, want=want)
  if not same(out.partitions, pre.partitions):
    return 'partitions changed'
  if not (np.array_equal(pre.node_coords, snap['c']) and np.array_equal(pre.elements, snap['e'])):
    return 'the input premesh was modified'


def same(a, b):
  return (a is None and b is None) or (a is not None and b is not None and np.array_equal(a, b))


def orientations(d):
  for perm in itertools.permutations(range(d)):
    for fl in itertools.product((0, 1), repeat=d):
      yield perm, [k for k in range(d) if fl[k]]


def pair(d, axis=0):
  """two unit cells glued along an axis"""
  from swirl_fem.core.premesh import Premesh
  n = [2] * d; n[axis] = 3
  ids = np.arange(int(np.prod(n))).reshape(n)
  X = np.stack(np.meshgrid(*[np.arange(k, dtype=float) for k in n], indexing='ij'), -1).reshape(-1, d)
  X = X + .07 * np.sin(3 * X[:, ::-1] + 1)
  a = np.take(ids, [0, 1], axis); b = np.take(ids, [1, 2], axis)
  return X, a, b


def prove(chk):
  from swirl_fem.core.premesh import Premesh

  def pairs(d, fam, m):
    def f():
      gp = fe.nodes(fam, m)
      cnt = 0
      for axis in range(d):
        X, a, b = pair(d, axis)
        for (pa, fa) in ([(tuple(range(d)), [])] if d == 3 else orientations(d)):
          A = np.flip(a.transpose(pa), fa).reshape(-1)
          for pb, fb in orientations(d):
            B = np.flip(b.transpose(pb), fb).reshape(-1)
            pre = Premesh.create(node_coords=X, elements=np.stack([A, B]).astype(np.int32))
            r = refine_contract(pre, gp); cnt += 1
            if r:
              raise Failed(str(r), model=dict(coords=X, elements=np.stack([A, B]), family=fam, points=m))
      return f'{cnt} pairs'
    return f
  for d, fam, m in ((1, 'nc', 4), (2, 'nc', 3), (2, 'gll', 4), (2, 'gll', 5), (3, 'gll', 3), (3, 'nc', 4), (3, 'gll', 5)):
    chk.oblige(f'refine_premesh.post[pair, {d}D, {fam}{m}]', pairs(d, fam, m), 'exhaustive', FUNCS,
               'two neighbouring elements in every relative orientation, up to 5 points per axis')


def pizza(rng, layers=0):
  """three quads around a vertex (extruded `layers` times): not a grid"""
  from swirl_fem.core.premesh import Premesh
  t = np.linspace(0, 2 * np.pi, 7)[:6] + .1
  X = np.concatenate([[[0, 0]], np.stack([np.cos(t), np.sin(t)], 1)])
  q = np.array([[0, 1, 3, 2], [0, 3, 5, 4], [0, 5, 1, 6]])
  bd = np.array([[1, 2], [2, 3], [3, 4], [4, 5], [5, 6], [6, 1]])
  if not layers:
    return X, q, bd
  n = len(X)
  Y = np.concatenate([np.c_[X * (1 + .1 * k), np.full(n, k + .1 * X[:, 0])] for k in range(layers + 1)])
  el = np.concatenate([np.stack([q + n * k, q + n * (k + 1)], -1).reshape(3, 8) for k in range(layers)])
  b = np.concatenate([np.stack([bd + n * k, bd + n * (k + 1)], -1).reshape(6, 4) for k in range(layers)] + [q])
  return Y, el, b


def contracts(chk):
  from swirl_fem.core.premesh import Premesh
  from swirl_fem.common import premesh_commons as pc
  rng = np.random.default_rng(chk.seed)
  fams = [('gll', 3), ('nc', 2), ('gll', 4), ('nc', 5), ('gl', 3), ('gll', 6), ('nc', 4), ('gll', 2), ('gl', 1), ('nc', 3)]
  for it in range(chk.n(42, 300)):
    d = 1 + it % 3
    fam, m = fams[it % len(fams)]
    if d == 3:
      m = min(m, 5)
    pre = fe.random_premesh(rng, d, n=None if it % 4 else 2)
    X, el = np.array(pre.node_coords), np.array(pre.elements)
    if it % 2:
      el = np.stack([fe.orient(e, d, rng, even=False) for e in el])
    b = np.array(pre.physical_groups['boundary'])
    k = int(rng.integers(1, len(b) + 1))
    groups = [{}, {'boundary': b}, {'a': b[:k], 'b': b[-k:]}][it % 3]
    parts = rng.integers(0, 3, len(el)).astype(np.int32) if it % 2 else None
    if it % 3 != 1:       # any numbering of the nodes
      perm = rng.permutation(len(X))
      Y = np.empty_like(X); Y[perm] = X
      X, el, b = Y, perm[el], perm[b]
      groups = {n_: perm[g] for n_, g in groups.items()}
    links = None
    if it % 4 >= 2 and len(b) >= 2:
      j = rng.choice(len(b), 2, replace=False)
      links = b[j][None]
    pre = Premesh.create(node_coords=X, elements=el.astype(np.int32), physical_groups=groups, periodic_links=links,
                         partitions=parts)
    chk.case('refine', lambda: refine_contract(pre, fe.nodes(fam, m)),
             dict(coords=X, elements=el, groups=groups, links=links, partitions=parts, family=fam, points=m))
  for it in range(chk.n(10, 60)):
    d = 2 + it % 2
    X, el, bd = pizza(rng, 0 if d == 2 else 1 + it % 2)
    perm = rng.permutation(len(X))
    Y = np.empty_like(X); Y[perm] = X
    el = np.stack([fe.orient(e, d, rng, even=False) for e in perm[el]])
    bd = np.stack([fe.orient(f, d - 1, rng, even=False) for f in perm[bd]])
    el = el[rng.permutation(len(el))]
    links = bd[rng.choice(len(bd), 4, replace=False)].reshape(2, 2, -1)
    fam, m = [('gll', 4), ('nc', 3), ('gll', 5)][it % 3]
    pre = Premesh.create(node_coords=Y, elements=el.astype(np.int32), physical_groups={'w': bd}, periodic_links=links)
    chk.case('unstructured', lambda: refine_contract(pre, fe.nodes(fam, m)),
             dict(coords=Y, elements=el, groups=bd, links=links, family=fam, points=m))
  # one element whose opposite faces are easily confused (equal sums, products or hashes of their node numbers)
  for nums in ((0, 3, 5, 6, 1, 2, 4, 7), (0, 2, 4, 6, 1, 3, 5, 7), (0, 1, 6, 7, 2, 3, 4, 5), (0, 3, 4, 7, 1, 2, 5, 6),
               *[rng.permutation(8) for _ in range(chk.n(6, 60))]):
    nums = np.asarray(nums)
    X = np.zeros((8, 3)); X[nums] = np.stack(np.meshgrid(*[[0., 1.]] * 3, indexing='ij'), -1).reshape(8, 3)
    for q in (nums, nums.reshape(2, 2, 2).transpose(2, 0, 1).ravel()):
      pre = Premesh.create(node_coords=X, elements=q[None].astype(np.int32))
      chk.case('numbering', lambda: refine_contract(pre, fe.nodes('gll', 3)), dict(coords=X, elements=q[None], family='gll', points=3))
  for ndim, N, per, fam, m in ((1, 3, (0,), 'gll', 4), (2, 3, (0, 1), 'gll', 5), (2, 2, (1,), 'nc', 3),
                               (3, 2, (0, 2), 'gll', 4), (2, 4, (), 'gll', 8), (2, 8, (0,), 'gll', 3)):
    pre = pc.unit_cube_mesh(N, ndim=ndim, periodic_dims=per)
    chk.case('cube', lambda: refine_contract(pre, fe.nodes(fam, m)), dict(ndim=ndim, N=N, periodic=per, family=fam, points=m))

  def rejects():
    pre = pc.unit_cube_mesh(1, ndim=2)
    from swirl_fem.core.mesh_refiner import refine_premesh
    r = refine_premesh(pre, fe.nodes('gll', 3))
    try:
      refine_premesh(r, fe.nodes('gll', 3))
    except ValueError:
      return None
    return 'a second order premesh was refined'
  chk.case('order', rejects)

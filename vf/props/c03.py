"""C03: periodic links identify exactly the linked nodes."""
NOTE = ('Proof for all node id arrays (single and partitioned), all link arrays and all sizes, from the current source of '
        'get_unique_node_indices and _get_periodic_mapping (loop rule with accumulation invariants, vf/symcol.py); '
        'networkx.connected_components is trusted to return the connected components. Integers are mathematical. The same '
        'contract is checked at run time against an independent closure on long chains, cycles, padding, large ids and '
        'through Premesh.finalize.')
LEVEL = 'proof'
TECHNIQUE = ('function contract, loop invariants by accumulation, verification conditions from the Python source discharged '
             'by z3; networkx under an assumed contract')

import itertools
import numpy as np
from vf.core import Failed


def closure(links):
  """node -> smallest node connected by a chain of links (independent oracle:
  iterated relaxation, no graph library)."""
  rep = {}
  pairs = []
  for facet in links:
    for a, b in zip(facet[0], facet[1]):
      pairs.append((int(a), int(b)))
      rep[int(a)] = int(a); rep[int(b)] = int(b)
  changed = True
  while changed:
    changed = False
    for a, b in pairs:
      m = min(rep[a], rep[b])
      if rep[a] != m or rep[b] != m:
        rep[a] = rep[b] = m
        changed = True
  return rep


def contract(ids, links):
  from swirl_fem.core import gather_scatter as gs
  before_ids, before_links = ids.copy(), None if links is None else links.copy()
  out = gs.get_unique_node_indices(ids, links)
  out = np.asarray(out)
  if links is None or len(links) == 0:
    want = before_ids
  else:
    rep = closure(before_links.tolist())
    want = np.array([rep.get(int(x), int(x)) if x != -1 else -1 for x in before_ids.ravel()]).reshape(before_ids.shape)
  if out.shape != want.shape or not np.array_equal(out, want):
    return dict(got=out, want=want)
  if out.dtype.kind not in 'iu':
    return dict(dtype=str(out.dtype))
  if not np.array_equal(ids, before_ids) or (links is not None and not np.array_equal(links, before_links)):
    return 'an argument was modified'
  return None


def prove(chk):
  F = ['gather_scatter.get_unique_node_indices', 'gather_scatter._get_periodic_mapping']

  def small():
    cnt = 0
    pairs = list(itertools.product(range(4), repeat=2))
    ids = np.arange(5, dtype=np.int32)
    for k in (1, 2, 3):
      for ls in itertools.product(pairs, repeat=k):
        # one facet of k nodes and k facets of one node
        A = np.array(ls, np.int32)
        for links in (A[:, :, None], A.T[None]):
          r = contract(ids, links)
          cnt += 1
          if r:
            raise Failed(str(r), model=dict(links=links.tolist()))
    return f'{cnt} link arrays'
  from vf import hostvc
  bound = 'every sequence of up to 3 links over 4 nodes, in both facet layouts'
  chk.oblige('get_unique_node_indices.post[single]', lambda: hostvc.unique_node_indices(1), 'symcol+z3', functions=F,
             stand_in=(bound, small))
  chk.oblige('get_unique_node_indices.post[partitioned]', lambda: hostvc.unique_node_indices(2), 'symcol+z3', functions=F,
             stand_in=(bound, small))
  chk.canary('linked nodes keep their ids', lambda: hostvc.canary(hostvc.unique_node_indices, 2))
  chk.assume(hostvc.ASSUME)
  chk.trust('networkx.connected_components: two nodes are in one component exactly if a chain of edges joins them')

  def none():
    for ids in (np.arange(4), np.array([[0, 2, -1], [1, -1, -1]])):
      for links in (None, np.zeros((0, 2, 3), np.int32)):
        r = contract(ids, links)
        if r:
          raise Failed(str(r))
  chk.oblige('get_unique_node_indices.post[no links]', hostvc.no_links, 'parametric evaluation', functions=F,
             stand_in=('two id arrays without links', none))


def contracts(chk):
  rng = np.random.default_rng(chk.seed)
  for it in range(chk.n(400, 4000)):
    n = int(rng.integers(1, [5, 12, 60][it % 3]))
    nl, q = int(rng.integers(1, 2 + n)), int(rng.integers(1, 5))
    links = rng.integers(0, n, (nl, 2, q)).astype([np.int32, np.int64][it % 2])
    if it % 4 == 0:       # a long chain in random order and orientation
      perm = rng.permutation(n)
      e = np.stack([perm[:-1], perm[1:]], 1) if n > 1 else np.array([[0, 0]])
      e = e[rng.permutation(len(e))]
      fl = rng.random(len(e)) < .5
      e[fl] = e[fl][:, ::-1]
      links = e[:, :, None].astype(np.int32)
    if it % 4 == 1:
      links = links[:1]
    if it % 2:
      ids = np.arange(n)
    else:
      ids = rng.integers(-1, n + 3, (int(rng.integers(1, 4)), int(rng.integers(1, 7))))
    if it % 5 == 2:       # numbers that need all bits of the index type
      off = [32760, 65530, 2**24 - 2, 2**31 - 80][it // 5 % 4]
      links = (links.astype(np.int64) + off).astype(links.dtype)
      ids = np.where(ids >= 0, ids + off, ids)
    ids = ids.astype(np.int32)
    chk.case('renumber', lambda: contract(ids, links), dict(ids=ids, links=links))

  # corner nodes linked along several axes: end to end through finalize
  from swirl_fem.common import premesh_commons as pc
  for ndim, N, per in ((1, 1, (0,)), (1, 5, (0,)), (2, 1, (0, 1)), (2, 3, (0,)), (2, 3, (1,)), (2, 4, (0, 1)),
                       (3, 1, (0, 1, 2)), (3, 2, (1, 2)), (3, 2, (0, 1, 2))):
    def mesh():
      pre = pc.unit_cube_mesh(N, ndim=ndim, periodic_dims=per)
      m = pre.finalize()
      X = np.rint(np.asarray(pre.node_coords) * N).astype(int)
      X[:, list(per)] %= N
      first = {}
      want = [first.setdefault(tuple(x), i) for i, x in enumerate(X.tolist())]
      got = np.asarray(m.node_indices).tolist()
      if got != want:
        return dict(got=got, want=want)
    chk.case('mesh', mesh, dict(ndim=ndim, N=N, periodic=per))

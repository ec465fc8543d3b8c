"""C04: partitioning a mesh loses, duplicates and re-wires nothing."""
NOTE = ('group_by_partitions, get_local_elements and Premesh.finalize with _mask (partitioned and not, periodic and not) are '
        'proved from their Python source for all sizes, connectivities, assignments and groups (vf/symcol.py), each caller '
        'against the contracts of its callees; jax.vmap, jax.pmap and the numpy functions used are represented by contracts. '
        'Integers are mathematical. The same contracts run on sampled meshes (random connectivity, uneven and empty '
        'partitions, periodic links, groups, up to 8 devices).')
LEVEL = 'proof'
TECHNIQUE = ('function contracts, loop invariants by accumulation, modular verification conditions from the Python source '
             'discharged by z3')

import itertools
import numpy as np
from vf.core import Failed
from vf.props.c03 import closure


def group_contract(parts):
  from swirl_fem.core import gather_scatter as gs
  out = np.asarray(gs.group_by_partitions(parts))
  if out.ndim != 2 or len(out) != 1 + parts.max() or out.dtype.kind != 'i':
    return dict(shape=out.shape)
  for p, row in enumerate(out.tolist()):
    r = [x for x in row if x != -1]
    want = [i for i, q in enumerate(parts.tolist()) if q == p]
    if sorted(r) != want:
      return dict(partition=p, got=row, want=want)
  if max((parts == p).sum() for p in range(len(out))) != out.shape[1]:
    return dict(shape=out.shape, what='row length is not the largest partition size')


def local_contract(el):
  from swirl_fem.core import gather_scatter as gs
  ni, loc = gs.get_local_elements(el)
  ni, loc = np.asarray(ni), np.asarray(loc)
  el = np.asarray(el)
  if loc.shape != el.shape or len(ni) != len(el):
    return dict(shape=[loc.shape, ni.shape])
  most = 0
  for p in range(len(el)):
    row = [x for x in ni[p].tolist() if x != -1]
    nodes = set(el[p].ravel().tolist()) - {-1}
    if sorted(row) != sorted(nodes):
      return dict(partition=p, node_indices=ni[p], want=sorted(nodes))
    most = max(most, len(nodes))
    for a, b in zip(el[p].ravel().tolist(), loc[p].ravel().tolist()):
      if (a == -1) != (b == -1) or (a != -1 and not (0 <= b < ni.shape[1] and ni[p, b] == a)):
        return dict(partition=p, element=el[p], local=loc[p], node_indices=ni[p])
  if ni.shape[1] != most:
    return dict(shape=ni.shape, want=most)


def group_large(parts):
  from swirl_fem.core import gather_scatter as gs
  out = np.asarray(gs.group_by_partitions(parts))
  for p, row in enumerate(out):
    if not np.array_equal(np.sort(row[row != -1]), np.flatnonzero(parts == p)):
      return dict(partition=p)


def local_large(el):
  from swirl_fem.core import gather_scatter as gs
  ni, loc = gs.get_local_elements(el)
  ni, loc = np.asarray(ni), np.asarray(loc)
  for p in range(len(el)):
    v = ni[p][ni[p] != -1]
    if not np.array_equal(np.sort(v), np.unique(el[p][el[p] != -1])):
      return dict(partition=p, what='nodes')
    if not np.array_equal(np.where(loc[p] == -1, -1, ni[p][loc[p]]), el[p]):
      return dict(partition=p, what='elements')


def finalize_contract(pre):
  """finalize against an independent description of the mesh by sets."""
  links = [] if pre.periodic_links is None else np.asarray(pre.periodic_links).tolist()
  rep = closure(links)
  R = lambda i: rep.get(int(i), int(i))
  X = np.asarray(pre.node_coords)
  el = np.asarray(pre.elements)
  grp = {k: {R(i) for i in np.asarray(v).ravel()} for k, v in pre.physical_groups.items()}
  if pre.partitions is None:
    m = pre.finalize()
    if not np.array_equal(np.asarray(m.node_coords), X.astype(np.asarray(m.node_coords).dtype)):
      return 'node coordinates changed'
    if not np.array_equal(np.asarray(m.elements), el):
      return 'elements changed'
    if np.asarray(m.node_indices).tolist() != [R(i) for i in range(len(X))]:
      return dict(what='node ids', got=m.node_indices)
    if set(m.physical_masks) != set(grp):
      return dict(what='groups', got=list(m.physical_masks))
    for k, mask in m.physical_masks.items():
      want = [R(i) in grp[k] for i in range(len(X))]
      if np.asarray(mask).tolist() != want:
        return dict(what='mask', group=k, got=mask, want=want)
    return None
  parts = np.asarray(pre.partitions)
  P = 1 + int(parts.max())
  # a partition with two nodes of one id cannot be represented
  for p in range(P):
    ids = np.unique(el[parts == p])
    if len({R(i) for i in ids}) != len(ids):
      shared = True
      try:
        pre.finalize(axis_name='i')
      except NotImplementedError:
        return None
      return 'finalized a partition holding two copies of one node'
  m = pre.finalize(axis_name='i')
  C, L, I = np.asarray(m.node_coords), np.asarray(m.elements), np.asarray(m.node_indices)
  if len(C) != P:
    return dict(partitions=len(C))
  for p in range(P):
    got = []
    for row in L[p].tolist():
      if all(j == -1 for j in row):
        continue
      if any(j == -1 or j >= I.shape[1] or I[p, j] == -1 for j in row):
        return dict(partition=p, row=row, ids=I[p])
      got.append((tuple(I[p, row].tolist()), tuple(map(tuple, C[p, row].tolist()))))
    want = [(tuple(R(j) for j in row), tuple(map(tuple, X[row].astype(C.dtype).tolist())))
            for row in el[parts == p].tolist()]
    if sorted(got) != sorted(want):
      return dict(partition=p, got=sorted(got), want=sorted(want))
    for k in grp:
      mask = np.asarray(m.physical_masks[k])[p]
      for j, i in enumerate(I[p].tolist()):
        if i != -1 and bool(mask[j]) != (i in grp[k]):
          return dict(partition=p, group=k, node=i, mask=bool(mask[j]))
  if set(m.physical_masks) != set(grp):
    return dict(what='groups', got=list(m.physical_masks))


def prove(chk):
  def grp():
    cnt = 0
    for n in range(1, 7):
      for ps in itertools.product(range(4), repeat=n):
        r = group_contract(np.array(ps, np.int32)); cnt += 1
        if r:
          raise Failed(str(r), model=dict(partitions=ps))
    return f'{cnt} assignments'
  from vf import hostvc
  chk.oblige('group_by_partitions.post', hostvc.group_by_partitions, 'symcol+z3',
             functions=['gather_scatter.group_by_partitions', 'gather_scatter._pad_evenly'],
             stand_in=('all assignments of up to 6 elements to up to 4 partitions', grp))

  def loc():
    cnt = 0
    for P, n in ((1, 1), (1, 4), (2, 2), (3, 1), (2, 3)):
      for e in itertools.product(range(-1, 3), repeat=P * n):
        r = local_contract(np.array(e, np.int32).reshape(P, n)); cnt += 1
        if r:
          raise Failed(str(r), model=dict(elements=np.array(e).reshape(P, n).tolist()))
    return f'{cnt} element arrays'
  chk.oblige('get_local_elements.post', hostvc.local_elements, 'symcol+z3', functions=['gather_scatter.get_local_elements'],
             stand_in=('all arrays of up to 6 entries over 3 nodes and padding, up to 3 partitions', loc))
  chk.canary('an index is listed at any place of its row', lambda: hostvc.canary(hostvc.group_by_partitions))
  chk.canary('the local number leads back to the position', lambda: hostvc.canary(hostvc.local_elements))
  chk.assume(hostvc.ASSUME)
  for part in (False, True):
    for per in (False, True):
      nm = f"Premesh.finalize.post[{'partitioned' if part else 'single'}{', periodic' if per else ''}]"
      chk.oblige(nm, lambda part=part, per=per: hostvc.finalize(part, per), 'symcol+z3', functions=['Premesh.finalize', 'premesh._mask'],
                 stand_in=('finalize on the sampled meshes of the runtime contracts', lambda: chk.deep(finalize_contracts)))
  chk.canary('ids of element nodes are those of the next nodes', lambda: hostvc.canary(hostvc.finalize, True, True))
  chk.canary('masks are shifted by one node', lambda: hostvc.canary(hostvc.finalize, False, True))
  for which in ('Mesh', 'Premesh'):
    chk.oblige(f'{which}.create.post', lambda which=which: hostvc.create(which), 'parametric evaluation', functions=[f'{which}.create'],
               stand_in=('finalize on the sampled meshes of the runtime contracts', lambda: chk.deep(finalize_contracts)))
  chk.canary('Mesh.create stores other elements', lambda: hostvc.create('Mesh', True))
  chk.assume('node numbers of elements and groups lie in [0, number of nodes), partition numbers are not negative (preconditions)')
  chk.trust('jax.vmap and jax.pmap map a function over the slices of the leading (named) axis; np.isin is membership',
            'gather and get_exchange_indices are used through the contracts proved under C01 and C02, get_unique_node_indices '
            'through that of C03')


def contracts(chk):
  from swirl_fem.core.premesh import Premesh
  from swirl_fem.common import premesh_commons as pc
  from vf import fe
  rng = np.random.default_rng(chk.seed)
  for it in range(chk.n(150, 2000)):
    n = int(rng.integers(1, 30)); P = int(rng.integers(1, 9))
    parts = rng.integers(0, P, n).astype([np.int32, np.int64][it % 2])
    chk.case('group', lambda: group_contract(parts), dict(partitions=parts))
    P = int(rng.integers(1, 6))
    shp = (P, int(rng.integers(1, 4)), int(rng.integers(1, 5)))[: 2 + it % 2]
    el = rng.integers(0, [3, 9, 1000][it % 3], shp)
    el[rng.random(shp) < [0, .2, .7][it % 3]] = -1
    el = el.astype(np.int32)
    chk.case('local', lambda: local_contract(el), dict(elements=el))

  # large sizes and numbers
  for it in range(3):
    parts = rng.integers(0, 3, 70000).astype(np.int32)
    if it == 1:
      parts[:] = np.arange(70000) % 300
    chk.case('group, large', lambda: group_large(parts), dict(seed=chk.seed, partitions=parts[:20]))
    el = rng.integers(0, [70000, 2**31 - 1, 2**25][it], (2, 12000, 4))
    el[rng.random(el.shape) < .05] = -1
    el = el.astype(np.int32)
    chk.case('local, large', lambda: local_large(el), dict(seed=chk.seed, shape=el.shape, elements=el[:, :3]))

  finalize_contracts(chk)


def finalize_contracts(chk):
  # end to end on random connectivity
  from swirl_fem.core.premesh import Premesh
  from swirl_fem.common import premesh_commons as pc
  from vf import fe
  rng = np.random.default_rng(chk.seed + 1)
  for it in range(chk.n(24, 150)):
    ndim = 1 + it % 3
    q = 2 ** ndim
    nodes, E, P = [(8, 5, 3), (20, 7, 4), (30, 9, 8), (9, 4, 1), (12, 3, 2), (16, 8, 6)][it % 6]
    X = rng.normal(size=(nodes, ndim)).astype(np.float64)
    el = np.stack([rng.choice(nodes, q, replace=False) for _ in range(E)]).astype(np.int32)
    parts = rng.integers(0, P, E)
    parts[int(rng.integers(E))] = P - 1     # others may stay empty
    links = None
    if it % 2:
      fq = 2 ** (ndim - 1)
      a = rng.choice(nodes, 2 * fq, replace=False)
      links = a.reshape(1, 2, fq).astype(np.int32)
    groups = {}
    for g in range(it % 4):
      groups[f'g{g}'] = rng.integers(0, nodes, (int(rng.integers(1, 4)), 2 ** (ndim - 1))).astype(np.int32)
    for pp in (None, parts.astype(np.int32)):
      pre = Premesh.create(node_coords=X, elements=el, physical_groups=groups, periodic_links=links, partitions=pp)
      chk.case('finalize', lambda: finalize_contract(pre),
               dict(coords=X, elements=el, groups=groups, links=links, partitions=pp))
  # periodic cubes, partitioned so that images lie in different partitions
  for ndim, N, per, parts in ((1, 2, (0,), [0, 1]), (1, 4, (0,), [0, 0, 1, 2]), (2, 2, (0,), [[0, 0], [1, 1]]),
                              (2, 2, (0, 1), [[0, 1], [2, 3]]), (2, 4, (1,), [[0, 1]] * 2), (2, 3, (0,), None),
                              (3, 2, (0, 2), None), (3, 2, (2,), [[[0, 1]]]), (2, 2, (0,), [[0, 1], [0, 1]])):
    def f():
      pa = None if parts is None else np.array(parts)
      pre = pc.unit_cube_mesh(N, ndim=ndim, periodic_dims=per, partitions=pa)
      # groups naming only one side of a periodic pair
      last = np.asarray(pre.periodic_links)[:1, 1]
      groups = dict(pre.physical_groups, image=last)
      return finalize_contract(pre.replace(physical_groups=groups))
    chk.case('finalize', f, dict(ndim=ndim, N=N, periodic=per, partitions=parts))

  def no_axis():
    pre = pc.unit_cube_mesh(2, ndim=1, partitions=np.array([0, 1]))
    try:
      pre.finalize()
    except ValueError:
      return None
    return 'partitioned mesh finalized without an axis name'
  chk.case('axis name', no_axis)

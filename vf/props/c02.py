"""C02: exchange sums all copies of a degree of freedom, everywhere."""
NOTE = ('exchange itself is proved from its jaxpr for all sizes, index arrays and values (partitioned and not, with '
        'and without unique indices); the construction of the exchange indices (get_exchange_indices, both layouts, the '
        'rejection of an id occurring twice in a partition included) is proved from its Python source for all sizes and ids '
        '(loop rule with accumulation invariants, vf/symcol.py). Rounding is not modelled; integers are mathematical.')
LEVEL = 'proof'

import contextlib
import itertools
import numpy as np
import z3
from vf import jxvc as jv
from vf.core import Failed

S = 'swirl_fem.core.gather_scatter.'


@contextlib.contextmanager
def symbolic_max(ui, kmax):
  """The static array `unique_indices` is represented by a tracer whose maximum
  is the symbolic number of classes minus one (its contract)."""
  from jax._src import core
  old = core.ShapedArray.max
  core.ShapedArray.max = core.aval_method(
      lambda self, *a, **k: kmax if self is ui else getattr(old, 'fun', old)(self, *a, **k))
  try:
    yield
  finally:
    core.ShapedArray.max = old


def prove(chk):
  import jax, jax.numpy as jnp
  from jax import export
  from swirl_fem.core import gather_scatter as gs
  from swirl_fem.core.mesh import Mesh
  chk.function('gather_scatter.exchange', 'Mesh.exchange')
  chk.assume('real arithmetic instead of floating point',
             'gather_indices lie in {-1} or [0, number of nodes); unique_indices in [0, number of classes) '
             '(postconditions of get_exchange_indices, checked there)')
  chk.trust('JAX tracing, vf/jxvc.py primitive semantics, z3',
            'psum over a mapped axis = sum over that axis (traced through jax.vmap with a named axis)')
  f, i32 = jnp.float64, jnp.int32
  SD = jax.ShapeDtypeStruct

  def go(part, uniq, via_mesh=False, kval=None):
    p, n, e, k = export.symbolic_shape('p,n,e,k', constraints=['p>=1', 'n>=1', 'e>=1', 'k>=1'])
    P, N, E, K = z3.Ints('P N E K')
    if kval:
      k, K = kval, z3.IntVal(kval)
    env = dict(p=P, n=N, e=E, **({} if kval else dict(k=K)))
    lead, zlead = ((p,), [P]) if part else ((), [])
    hyps = [P >= 1, N >= 1, E >= 1, K >= 1]
    u, gi, ui = jv.rarr('u', zlead + [N]), jv.iarr('gi', zlead + [E]), jv.iarr('ui', [E])
    vs = z3.Ints('hp he') if part else [z3.Int('he')]
    t = gi.at(*vs)
    hyps.append(z3.ForAll(vs, z3.And(t >= -1, t < N), patterns=[t]))
    h = z3.Int('hk')
    hyps.append(z3.ForAll([h], z3.And(ui.at(h) >= 0, ui.at(h) < K), patterns=[ui.at(h)]))

    def fn(u_, gi_, ui_):
      un = ui_ if uniq else None
      if via_mesh:
        from swirl_fem.core.interpolation import Nodes1D, NodeType
        def one(a, b):
          m = Mesh(node_coords=jnp.zeros((n, 1)), elements=jnp.zeros((1, 2), i32), node_indices=jnp.zeros((1,), i32),
                   order=1, gridpoints_1d=Nodes1D.create(num_points=2, node_type=NodeType.NEWTON_COTES),
                   exchange_gather_indices=b, exchange_unique_indices=un, axis_name='i' if part else None)
          return m.exchange(a)
      else:
        one = lambda a, b: gs.exchange(a, b, un, axis_name='i' if part else None)
      with symbolic_max(ui_, k - 1):
        if part:
          return jax.vmap(one, axis_name='i')(u_, gi_)
        return one(u_, gi_)
    cj = jax.make_jaxpr(fn)(SD(lead + (n,), f), SD(lead + (e,), i32), SD((e,), i32))
    it = jv.Interp(hyps, dim_env=env)
    out = it.run(cj, u, gi, ui)[0]
    chk.extra['primitives_interpreted'] = sorted(set(chk.extra.get('primitives_interpreted', [])) | it.prims)
    return P, N, E, K, hyps, u, gi, ui, out

  def spec(part, uniq, P, N, E, K, u, gi, ui, drop_self=False):
    def at(*idx):
      lead, nd = list(idx[:-1]), idx[-1]
      x = jv.fresh('x')
      # contributions of all copies of the class of entry x
      b = []
      y = x
      if uniq:
        y = jv.fresh('y'); b.append((y, E))
      q = []
      if part:
        w = jv.fresh('w'); b.append((w, P)); q = [w]
      src = gi.at(*q, y)
      tot = u.at(*q, src).guard(src != -1)
      if uniq:
        tot = tot.guard(ui.at(y) == ui.at(x))
      tot = jv.sum_over(b, tot)
      tgt = gi.at(*lead, x)
      upd = (tot - u.at(*lead, tgt)).guard(jv.iz(nd) == tgt)
      if drop_self:
        upd = tot.guard(jv.iz(nd) == tgt)
      return u.at(*idx) + jv.sum_over([(x, E)], upd)
    return jv.Arr(([P] if part else []) + [N], 'f', at)

  for part, uniq, mesh in itertools.product((False, True), (False, True), (False, True)):
    tag = f"[{'partitioned' if part else 'single'}, {'unique ids' if uniq else 'plain'}]"
    name = ('Mesh.exchange' if mesh else 'exchange') + '.post' + tag

    def ob(part=part, uniq=uniq, mesh=mesh):
      def one(kval=None):
        P, N, E, K, hyps, u, gi, ui, out = go(part, uniq, mesh, kval)
        jv.prove_arr_eq(out, spec(part, uniq, P, N, E, K, u, gi, ui), hyps, 'exchange')
      try:
        one()
      except Exception as e:
        if type(e).__name__ != 'InconclusiveDimensionOperation':
          raise
        # the code turns the number of classes into a host integer: it is enumerated, all other sizes stay symbolic
        for kval in (1, 2, 5):
          one(kval)
        return 'number of classes 1, 2, 5'
    chk.oblige(name, ob, 'jxvc+z3')

  def wrong():
    try:
      P, N, E, K, hyps, u, gi, ui, out = go(False, True)
    except Exception as e:
      if type(e).__name__ != 'InconclusiveDimensionOperation':
        raise
      P, N, E, K, hyps, u, gi, ui, out = go(False, True, kval=2)
    jv.prove_arr_eq(out, spec(False, True, P, N, E, K, u, gi, ui, drop_self=True), hyps, 'exchange')
  chk.canary('exchange that adds the sum on top of the own value', wrong)

  def nothing():
    u = jnp.arange(4.)
    if gs.exchange(u, None) is not u and not np.array_equal(gs.exchange(u, None), u):
      raise Failed('exchange without indices is not the identity')
    if not np.array_equal(gs.exchange(u, np.zeros(0, np.int32)), u):
      raise Failed('exchange with no shared node is not the identity')
  chk.oblige('exchange.post[no indices]', nothing, 'evaluation')

  # contract of get_exchange_indices: proved; on every small layout if the source has left the accepted subset
  def small(rank):
    cnt = 0
    if rank == 1:
      for n in range(1, 7):
        for ids in itertools.product(range(-1, min(n, 4)), repeat=n):
          r = index_contract(gs, np.array(ids, np.int32))
          cnt += 1
          if r:
            raise Failed(str(r), model=dict(node_indices=ids))
    else:
      for P, n in ((1, 1), (1, 3), (2, 1), (2, 2), (2, 3), (3, 2), (4, 1)):
        for ids in itertools.product(range(-1, 3), repeat=P * n):
          r = index_contract(gs, np.array(ids, np.int32).reshape(P, n))
          cnt += 1
          if r:
            raise Failed(str(r), model=dict(node_indices=np.array(ids).reshape(P, n).tolist()))
    return f'{cnt} layouts'
  from vf import hostvc
  chk.oblige('get_exchange_indices.post[single]', hostvc.exchange_single, 'symcol+z3',
             functions=['gather_scatter.get_exchange_indices', 'gather_scatter._get_exchange_indices_unpartitioned'],
             stand_in=('get_exchange_indices: all single layouts of up to 6 nodes with up to 4 ids and padding', lambda: small(1)))
  chk.oblige('get_exchange_indices.post[partitioned]', hostvc.exchange_partitioned, 'symcol+z3',
             functions=['gather_scatter._get_exchange_indices_partitioned'],
             stand_in=('get_exchange_indices: all partitioned layouts of up to 6 nodes with 3 ids and padding', lambda: small(2)))
  chk.canary('two nodes are in one class only if they are the same node', lambda: hostvc.canary(hostvc.exchange_single))
  chk.canary('a column is used by one partition only', lambda: hostvc.canary(hostvc.exchange_partitioned))
  chk.assume(hostvc.ASSUME)


def index_contract(gs, ids):
  """Postcondition of get_exchange_indices: the index arrays describe exactly the
  copies of every shared id. Returns None or a description of the breach."""
  dup_inside = ids.ndim == 2 and any(
      len(v := [x for x in row if x != -1]) != len(set(v)) for row in ids.tolist())
  try:
    gi, ui = gs.get_exchange_indices(ids)
  except NotImplementedError:
    return None if dup_inside else 'rejected a representable layout'
  if dup_inside:
    return 'accepted an id repeated inside one partition'
  gi = np.asarray(gi)
  flat = ids.ravel().tolist()
  shared = sorted({x for x in flat if x != -1 and flat.count(x) > 1})
  if ids.ndim == 1:
    ui = None if ui is None else np.asarray(ui)
    if gi.ndim != 1 or (ui is not None and ui.shape != gi.shape):
      return dict(shape=gi.shape)
    listed = [int(g) for g in gi if g != -1]
    if any(not 0 <= g < len(ids) for g in listed) or len(set(listed)) != len(listed):
      return dict(gather=gi)
    want = [i for i, x in enumerate(ids.tolist()) if x in shared]
    if sorted(listed) != want:
      # listing an unshared node alone in its class would be harmless
      extra = set(listed) - set(want)
      if set(want) - set(listed) or any(ids[g] == -1 for g in extra):
        return dict(gather=gi, want=want)
    if ui is not None and len(ui) and (ui.min() < 0):
      return dict(unique=ui)
    for a, b in itertools.product(range(len(gi)), repeat=2):
      if gi[a] == -1 or gi[b] == -1:
        continue
      same = (ui[a] == ui[b]) if ui is not None else a == b
      if same != (ids[gi[a]] == ids[gi[b]]):
        return dict(gather=gi, unique=ui, pair=[a, b])
    return None
  if ui is not None:
    return 'unexpected unique indices'
  if gi.ndim != 2 or len(gi) != len(ids):
    return dict(shape=gi.shape)
  seen = {}
  for p, row in enumerate(gi.tolist()):
    for k, g in enumerate(row):
      if g == -1:
        continue
      if not 0 <= g < ids.shape[1] or ids[p, g] == -1:
        return dict(gather=gi)
      if seen.setdefault(k, ids[p, g]) != ids[p, g]:
        return dict(gather=gi, column=k)
      seen.setdefault(('id', int(ids[p, g])), k)
      if seen[('id', int(ids[p, g]))] != k:
        return dict(gather=gi, column=k)
  got = {(p, g) for p, row in enumerate(gi.tolist()) for g in row if g != -1}
  if sum(g != -1 for row in gi.tolist() for g in row) != len(got):
    return dict(gather=gi, what='node listed twice')
  want = {(p, i) for p, row in enumerate(ids.tolist()) for i, x in enumerate(row) if x in shared}
  if want - got:
    return dict(gather=gi, missing=sorted(want - got))
  return None


def expected(ids, u):
  ids = np.asarray(ids)
  tot = {}
  for j in np.ndindex(*ids.shape):
    if ids[j] != -1:
      tot[int(ids[j])] = tot.get(int(ids[j]), 0) + u[j].item()
  out = np.array(u)
  for j in np.ndindex(*ids.shape):
    if ids[j] != -1:
      out[j] = tot[int(ids[j])]
  return out


def contracts(chk):
  import jax, jax.numpy as jnp
  from swirl_fem.core import gather_scatter as gs
  from swirl_fem.common import premesh_commons as pc
  rng = np.random.default_rng(chk.seed)
  dts = [np.float64, np.float32, np.int32, np.complex128, np.int64]

  def vals(shape, dt):
    if dt == np.complex128:
      return (rng.integers(-40, 40, shape) + 1j * rng.integers(-40, 40, shape)).astype(dt)
    if dt == np.int64:
      return rng.integers(-2**40, 2**40, shape) * 1001 + 1
    return rng.integers(-40, 40, shape).astype(dt)

  for it in range(chk.n(40, 700)):
    n = [1, 2, 4, 7, 12, 40][it % 6]
    hi = int(rng.integers(1, n + 2))
    ids = rng.integers(-1 if it % 2 else 0, hi, n)
    if it % 5 == 0:
      ids = np.where(ids >= 0, ids * 1009 + 17, ids)
    ids = ids.astype(np.int32 if it % 7 else np.int64)
    u = vals(n, dts[it % 5])

    def single():
      r = index_contract(gs, ids)
      if r:
        return r
      gi, ui = gs.get_exchange_indices(ids)
      fn = lambda a: gs.exchange(a, gi, ui)
      got = np.asarray((jax.jit(fn) if it % 4 == 0 else fn)(jnp.asarray(u)))
      want = expected(ids, u)
      if got.dtype != u.dtype or not np.array_equal(got, want):
        return dict(got=got, want=want)
    chk.case('single', single, dict(ids=ids, u=u))

  for it in range(chk.n(30, 400)):
    P, n = [(1, 3), (2, 4), (3, 3), (5, 4), (8, 6), (2, 1)][it % 6]
    pool = int(rng.integers(n, 3 * n + 2))
    ids = np.stack([rng.choice(pool, n, replace=False) for _ in range(P)])
    ids[rng.random(ids.shape) < [.0, .25, .6][it % 3]] = -1
    if it % 6 == 0 and n > 1:     # a repeated id inside one partition
      ids[int(rng.integers(P)), :2] = int(rng.integers(pool))
    ids = ids.astype(np.int32)
    u = vals((P, n), dts[it % 4])

    def part():
      r = index_contract(gs, ids)
      if r:
        return r
      try:
        gi, ui = gs.get_exchange_indices(ids)
      except NotImplementedError:
        return None
      fn = lambda a, g: gs.exchange(a, g, ui, axis_name='i')
      m = jax.pmap if it % 10 == 0 and P <= len(jax.devices()) else jax.vmap
      got = np.asarray(m(fn, axis_name='i')(jnp.asarray(u), jnp.asarray(gi)))
      want = expected(ids, u)
      if got.dtype != u.dtype or not np.array_equal(got, want):
        return dict(got=got, want=want)
    chk.case('partitioned', part, dict(ids=ids, u=u))

  # large layouts: many exchanged nodes, large ids
  for part, off in ((False, 0), (False, 2**31 - 1 - 40000), (True, 0), (True, 2**31 - 1 - 40000)):
    n = 70000 if not part else 36000
    if part:
      ids = np.stack([np.arange(n), rng.permutation(n + 3000)[:n]])
    else:
      ids = rng.permutation(np.concatenate([np.arange(35000), np.arange(35000)]))
    ids = (ids + off).astype(np.int32)
    u = rng.integers(-2**30, 2**30, ids.shape)

    def large():
      gi, ui = gs.get_exchange_indices(ids)
      if part:
        got = jax.vmap(lambda a, g: gs.exchange(a, g, ui, axis_name='i'), axis_name='i')(jnp.asarray(u), jnp.asarray(gi))
      else:
        got = gs.exchange(jnp.asarray(u), gi, ui)
      _, inv = np.unique(ids, return_inverse=True)
      tot = np.zeros(inv.max() + 1, np.int64)
      np.add.at(tot, inv.ravel(), u.ravel())
      want = tot[inv.reshape(ids.shape)]
      bad = np.argwhere(np.asarray(got) != want)
      if len(bad):
        j = tuple(bad[0].tolist())
        return dict(node=j, id=ids[j], got=np.asarray(got)[j], want=want[j])
    chk.case('large', large, dict(seed=chk.seed, partitioned=part, nodes=n, smallest_id=off))

  def bad_rank(shape):
    try:
      gs.get_exchange_indices(np.zeros(shape, np.int32))
    except ValueError:
      return None
    return 'accepted'
  for shape in ((), (1, 1, 1)):
    chk.case('rank', lambda: bad_rank(shape), dict(shape=shape))

  # through real meshes
  for ndim, N, per in ((1, 1, (0,)), (1, 4, (0,)), (2, 2, (0,)), (2, 3, (0, 1)), (2, 1, (1,)), (3, 2, (0, 2)), (3, 2, (0, 1, 2))):
    def mesh():
      m = pc.unit_cube_mesh(N, ndim=ndim, periodic_dims=per).finalize()
      X = np.rint(np.asarray(m.node_coords) * N).astype(int)
      X[:, list(per)] %= N
      ids = np.array([hash(tuple(x)) for x in X.tolist()])
      _, ids = np.unique(ids, return_inverse=True)
      u = vals(len(X), np.float64)
      got = np.asarray(m.exchange(jnp.asarray(u)))
      want = expected(ids, u)
      if not np.array_equal(got, want):
        return dict(got=got, want=want)
    chk.case('mesh', mesh, dict(ndim=ndim, N=N, periodic=per))

  for ndim, N, per, parts in ((1, 4, (), [0, 0, 1, 1]), (2, 2, (), [[0, 1], [2, 3]]), (2, 4, (0,), [[0, 0], [1, 1]]),
                              (1, 6, (0,), [0, 1, 2]), (2, 4, (0, 1), [[0, 1], [2, 3]]), (2, 2, (), [[2, 0], [1, 1]])):
    parts = np.array(parts)

    def pm():
      pre = pc.unit_cube_mesh(N, ndim=ndim, periodic_dims=per, partitions=parts)
      try:
        m = pre.finalize(axis_name='i')
      except NotImplementedError:
        return None
      ids = np.asarray(m.node_indices)
      u = vals(ids.shape, np.float64)
      got = np.asarray(jax.pmap(lambda mm, a: mm.exchange(a), axis_name='i')(m, jnp.asarray(u)))
      want = expected(ids, u)
      if not np.array_equal(got, want):
        return dict(got=got, want=want)
    chk.case('partitioned mesh', pm, dict(ndim=ndim, N=N, periodic=per, partitions=parts))

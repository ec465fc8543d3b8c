"""C01: gather / scatter are exact transposes and ignore padding."""
NOTE = ('Proof over the reals for all sizes, index arrays and values (index rank 1-3), from the jaxpr of the real '
        'gather/scatter; trusts JAX tracing, the primitive semantics in vf/jxvc.py and z3. Rounding is not modelled.')

import numpy as np
import z3
from vf.core import Failed
from vf import jxvc as jv

FUNCS = ['gather_scatter.gather', 'gather_scatter.scatter', 'Mesh.gather', 'Mesh.scatter', 'Mesh.element_coords']


def trace_symbolic(rank):
  """jaxprs of the real gather/scatter for index arrays of the given rank."""
  import jax, jax.numpy as jnp
  from jax import export
  from swirl_fem.core import gather_scatter as gs
  names = ['e', 'q', 'r'][:rank]
  dims = export.symbolic_shape(','.join(['n'] + names), constraints=['n>=1'] + [f'{d}>=1' for d in names])
  n, es = dims[0], tuple(dims[1:])
  f = jnp.float64
  S = jax.ShapeDtypeStruct
  g = jax.make_jaxpr(lambda u, i: gs.gather(u, i, fill_value=0.))(S((n,), f), S(es, jnp.int32))
  gf = jax.make_jaxpr(lambda u, i, v: gs.gather(u, i, fill_value=v))(S((n,), f), S(es, jnp.int32), S((), f))
  # num_nodes is a static size in scatter: pass the symbolic dimension itself
  s = jax.make_jaxpr(lambda v, i: gs.scatter(v, i, n))(S(es, f), S(es, jnp.int32))
  return g, gf, s


def setup(rank):
  N = z3.Int('N')
  sz = [z3.Int(x) for x in ('E', 'Q', 'R')[:rank]]
  env = dict(n=N, **dict(zip(['e', 'q', 'r'], sz)))
  idx = jv.iarr('elements', sz)
  vs = [z3.Int(f'h{k}') for k in range(rank)]
  t = idx.at(*vs)
  hyps = [N >= 1] + [s >= 1 for s in sz] + [
      z3.ForAll(vs, z3.And(t >= -1, t < N), patterns=[t])]
  return N, sz, env, idx, hyps


def prove(chk):
  chk.function(*FUNCS)
  chk.assume('real arithmetic instead of floating point (rounding of sums is not modelled)',
             'indices lie in {-1} or [0, number of nodes) (precondition)')
  chk.trust('JAX tracing (make_jaxpr) and the XLA semantics of the listed primitives as encoded in vf/jxvc.py',
            'z3 5.3')
  prims = set()
  for rank in (1, 2, 3):
    N, sz, env, idx, hyps = setup(rank)
    u, v, fill = jv.rarr('u', [N]), jv.rarr('v', sz), jv.rarr('fill', [])
    box = {}

    def traced():
      if 'j' not in box:
        box['j'] = trace_symbolic(rank)
      return box['j']

    def run(which, *args):
      it = jv.Interp(hyps, dim_env=env)
      r = it.run(traced()[which], *args)[0]
      prims.update(it.prims)
      return r

    def gather_post():
      out = run(1, u, idx, fill)
      spec = jv.Arr(sz, 'f', lambda *i: jv.ite(idx.at(*i) == -1, fill.at(), u.at(idx.at(*i)), 'f'))
      jv.prove_arr_eq(out, spec, hyps, 'gather')

    def scatter_post():
      out = run(2, v, idx)
      def spec(i):
        b = [jv.fresh('k') for _ in sz]
        return jv.sum_over(list(zip(b, sz)), v.at(*b).guard(idx.at(*b) == jv.iz(i)))
      jv.prove_arr_eq(out, jv.Arr([N], 'f', spec), hyps, 'scatter')

    def adjoint():
      g, s = run(0, u, idx), run(2, v, idx)
      b = [jv.fresh('k') for _ in sz]
      lhs = jv.sum_over(list(zip(b, sz)), g.at(*b) * v.at(*b))
      i = jv.fresh('i')
      rhs = jv.sum_over([(i, N)], u.at(i) * s.at(i))
      jv.prove_eq(lhs, rhs, hyps, '<gather u, v> = <u, scatter v>')
    chk.oblige(f'gather.post[rank {rank}]', gather_post, 'jxvc+z3')
    chk.oblige(f'scatter.post[rank {rank}]', scatter_post, 'jxvc+z3')
    chk.oblige(f'lemma.adjoint[rank {rank}]', adjoint, 'jxvc+z3')

    def cover():
      s = z3.Solver(); s.set('timeout', 10000)
      s.add(N == 3, *[x == 2 for x in sz])
      s.add(idx.at(*[z3.IntVal(0)] * rank) == -1, idx.at(*[z3.IntVal(1)] * rank) == 2)
      k = [z3.IntVal(0)] * rank
      if s.check() != z3.sat:
        raise Failed('precondition unsatisfiable')
    chk.oblige(f'cover.precondition[rank {rank}]', cover)

    def wrong():
      out = run(2, v, idx)
      def spec(i):   # forgets that -1 is not a node
        b = [jv.fresh('k') for _ in sz]
        return jv.sum_over(list(zip(b, sz)), v.at(*b).guard(z3.Or(
            idx.at(*b) == jv.iz(i), idx.at(*b) + N == jv.iz(i))))
      jv.prove_arr_eq(out, jv.Arr([N], 'f', spec), hyps, 'scatter')
    chk.canary(f'scatter with padding aliased to the last node[rank {rank}]', wrong)
  mesh_level(chk)
  chk.extra['primitives_interpreted'] = sorted(prims)


def mesh_level(chk):
  """Mesh.gather/scatter/element_coords against the contracts of gather/scatter."""
  import jax, jax.numpy as jnp
  from jax import export
  from swirl_fem.core.mesh import Mesh

  def mesh_obls(ndim):
    n, e = export.symbolic_shape('n,e', constraints=['n>=1', 'e>=1'])
    p = 2 ** ndim
    S = jax.ShapeDtypeStruct
    from swirl_fem.core.interpolation import Nodes1D, NodeType
    gp = Nodes1D.create(num_points=2, node_type=NodeType.NEWTON_COTES)
    def mk(c, el):
      return Mesh(node_coords=c, elements=el, node_indices=jnp.zeros((1,), jnp.int32), order=1, gridpoints_1d=gp)
    fs = S((n, ndim), jnp.float64), S((e, p), jnp.int32)
    return (jax.make_jaxpr(lambda c, el, u: mk(c, el).gather(u))(*fs, S((n,), jnp.float64)),
            jax.make_jaxpr(lambda c, el, v: mk(c, el).scatter(v))(*fs, S((e, p), jnp.float64)),
            jax.make_jaxpr(lambda c, el: mk(c, el).element_coords())(*fs))
  for ndim in (1, 2, 3):
    P = 2 ** ndim
    N, E = z3.Ints('N E')
    idx = jv.iarr('elements', [E, P])
    a, b = z3.Ints('a b')
    hyps = [N >= 1, E >= 1, z3.ForAll([a, b], z3.And(idx.at(a, b) >= -1, idx.at(a, b) < N), patterns=[idx.at(a, b)])]
    env = dict(n=N, e=E)
    c, u, v = jv.rarr('coords', [N, ndim]), jv.rarr('u', [N]), jv.rarr('v', [E, P])
    box = {}

    def tr():
      if 'j' not in box:
        box['j'] = mesh_obls(ndim)
      return box['j']

    def g():
      out = jv.Interp(hyps, dim_env=env).run(tr()[0], c, idx, u)[0]
      jv.prove_arr_eq(out, jv.Arr([E, P], 'f', lambda i, j: jv.ite(
          idx.at(i, j) == -1, jv.Poly(), u.at(idx.at(i, j)), 'f')), hyps, 'Mesh.gather')

    def s():
      out = jv.Interp(hyps, dim_env=env).run(tr()[1], c, idx, v)[0]
      def spec(i):
        x, y = jv.fresh('k'), jv.fresh('k')
        return jv.sum_over([(x, E), (y, P)], v.at(x, y).guard(idx.at(x, y) == jv.iz(i)))
      jv.prove_arr_eq(out, jv.Arr([N], 'f', spec), hyps, 'Mesh.scatter')

    def ec():
      out = jv.Interp(hyps, dim_env=env).run(tr()[2], c, idx)[0]
      jv.prove_arr_eq(out, jv.Arr([E, P, ndim], 'f', lambda i, j, k: jv.ite(
          idx.at(i, j) == -1, jv.Poly(), c.at(idx.at(i, j), k), 'f')), hyps, 'Mesh.element_coords')
    chk.oblige(f'Mesh.gather.post[ndim {ndim}]', g, 'jxvc+z3')
    chk.oblige(f'Mesh.scatter.post[ndim {ndim}]', s, 'jxvc+z3')
    chk.oblige(f'Mesh.element_coords.post[ndim {ndim}]', ec, 'jxvc+z3')


def contracts(chk):
  import jax.numpy as jnp
  from swirl_fem.core import gather_scatter as gs
  from swirl_fem.core.mesh import Mesh
  rng = np.random.default_rng(chk.seed)
  for it in range(chk.n(60, 400)):
    n = int(rng.integers(1, 9))
    rank = int(rng.integers(1, 4))
    shp = tuple(int(x) for x in rng.integers(1, 5, size=rank))
    mode = it % 4
    idx = rng.integers(-1, n, size=shp)
    if mode == 1:
      idx[...] = -1
    if mode == 2:
      idx[rng.random(shp) < .5] = n - 1
      idx[rng.random(shp) < .3] = -1
    dt = [np.float64, np.float32, np.int32][it % 3]
    u = (rng.integers(-50, 50, size=n)).astype(dt)
    v = (rng.integers(-50, 50, size=shp)).astype(dt)
    fill = [0, -1, 7][it % 3]
    idx = idx.astype(np.int32)
    inp = dict(n=n, indices=idx, u=u, v=v, fill=fill)

    def gather_c():
      q = np.asarray(gs.gather(jnp.asarray(u), jnp.asarray(idx), fill_value=fill))
      want = np.where(idx == -1, fill, u[idx])
      if q.shape != shp or not np.array_equal(q, want):
        return dict(got=q, want=want)

    def scatter_c():
      s = np.asarray(gs.scatter(jnp.asarray(v), jnp.asarray(idx), n))
      want = np.zeros(n)
      for j in np.ndindex(*shp):
        if idx[j] != -1:
          want[idx[j]] += v[j]
      if s.shape != (n,) or not np.array_equal(s, want):
        return dict(got=s, want=want)
    chk.case('gather', gather_c, inp)
    chk.case('scatter', scatter_c, inp)
    if rank == 2:
      ndim = 1
      P = 2
      el = idx.reshape(-1)[: idx.size // 2 * 2].reshape(-1, 2)
      if not len(el):
        continue
      coords = rng.integers(-9, 9, size=(n, ndim)).astype(np.float64)
      mi = dict(elements=el, coords=coords, u=u)

      def mesh_c():
        m = Mesh.create(node_coords=jnp.asarray(coords), elements=jnp.asarray(el))
        uu = jnp.asarray(u.astype(np.float64))
        g = np.asarray(m.gather(uu))
        if not np.array_equal(g, np.where(el == -1, 0, u[el])):
          return dict(op='gather', got=g)
        w = rng.integers(-9, 9, size=el.shape).astype(np.float64)
        s = np.asarray(m.scatter(jnp.asarray(w)))
        want = np.zeros(n)
        for j in np.ndindex(*el.shape):
          if el[j] != -1:
            want[el[j]] += w[j]
        if not np.array_equal(s, want):
          return dict(op='scatter', got=s, want=want)
        ec = np.asarray(m.element_coords())
        if not np.array_equal(ec, np.where((el == -1)[..., None], 0, coords[el])):
          return dict(op='element_coords', got=ec)
      chk.case('mesh', mesh_c, mi)

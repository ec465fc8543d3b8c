"""Symbolic finite-element spaces for jxvc, and numeric mesh generators.

Symbolic side: the real `FiniteElementSpace`, `Mesh`, `BarycentricInterpolator`
methods run under JAX tracing with
  * number of nodes / elements symbolic,
  * connectivity, coordinates, geometry factors, interpolation and gradient
    matrices, quadrature weights and all fields free arrays.
`BarycentricInterpolator.interpolation_matrix(_grad)` and `Quadrature1D.weights_nd`
are replaced by free arrays (their contracts are C08 / C09): the callers are
checked against arbitrary matrices, hence against whatever those functions return.
"""
import contextlib
import numpy as np
import z3
from vf import jxvc as jv
from vf.core import Unsupported


class Sizes:
  """Reference sizes; never unrolled by the index-notation proof."""

  def __init__(self, ndim, np1=2, nq1=3):
    self.ndim, self.np1, self.nq1 = ndim, np1, nq1
    self.P, self.Q = np1 ** ndim, nq1 ** ndim


def evaluate(space, f):
  """Values of a q-function at the quadrature points, the way the public interface defines them."""
  import jax
  return jax.vmap(jax.vmap(f))(space.quad_coords)


def given(space, arr):
  """A q-function with arbitrary values arr at the quadrature points."""
  import jax.numpy as jnp
  from jax.custom_batching import custom_vmap

  def f(x):
    @custom_vmap
    def point(x):
      return jnp.ones((), x.dtype)

    @point.def_vmap
    def _(size, batched, xs):
      return element(xs), True

    @custom_vmap
    def element(xs):
      return jnp.ones(len(xs), xs.dtype)

    @element.def_vmap
    def _(size, batched, xs):
      return arr, True
    return point(x)
  return f


def sweep(chk):
  """(ndim, nodes per axis, quadrature points per axis) traced by the proofs. The index-notation proof never unrolls the
  sizes, so each costs the same; several are traced because the code could branch on them."""
  out = [(d, *s) for d in (1, 2, 3) for s in ((2, 3), (6, 5))]
  if chk.tier == 'thorough':
    out += [(d, n, q) for d in (1, 2, 3) for n in (3, 4, 5, 8, 10, 13) for q in (n - 1, n, n + 2)]
  return out


class Tracer:
  """Builds a jaxpr of a function of named arrays and interprets it."""

  def __init__(self, hyps, dims):
    self.hyps = hyps
    self.dims = dims              # jax dim name -> z3
    self.args = {}                # name -> (jax shape, kind, Arr)

  def add(self, name, shape, kind='f', arr=None):
    zshape = [self.dims[str(s)] if not isinstance(s, int) else s for s in shape]
    if arr is None:
      arr = jv.rarr(name, zshape) if kind == 'f' else jv.iarr(name, zshape)
    self.args[name] = (tuple(shape), kind, arr)
    return arr

  def run(self, fn, opaque=None):
    import jax, jax.numpy as jnp
    names = list(self.args)
    specs = [jax.ShapeDtypeStruct(self.args[n][0], jnp.float64 if self.args[n][1] == 'f' else jnp.int32)
             for n in names]
    box = {}

    def g(*xs):
      out = fn(dict(zip(names, xs)))
      leaves, tree = jax.tree_util.tree_flatten(out)
      box['tree'] = tree
      return leaves
    closed = jax.make_jaxpr(g)(*specs)
    it = jv.Interp(self.hyps, opaque=dict(opaque or {}), dim_env=self.dims)
    outs = it.run(closed, *[self.args[n][2] for n in names])
    self.prims = getattr(self, 'prims', set()) | it.prims
    return jax.tree_util.tree_unflatten(box['tree'], outs)


def symbolic_dims():
  from jax import export
  n, e = export.symbolic_shape('n,e', constraints=['n>=1', 'e>=1'])
  N, E = z3.Ints('N E')
  return (n, e), dict(n=N, e=E), [N >= 1, E >= 1]


def conn_hyps(idx, N):
  a, b = z3.Ints('ha hb')
  t = idx.at(a, b)
  return z3.ForAll([a, b], z3.And(t >= -1, t < N), patterns=[t])


def make_interp(base_cls, I, G):
  class Interp(base_cls):
    def interpolation_matrix(self):
      return I

    def interpolation_matrix_grad(self):
      return G
  return Interp


class _Weights:
  """1-D quadrature weights of which only the number is used; their values are those of `weights_nd`."""

  def __init__(self, n):
    self.shape, self.size, self.ndim, self.dtype = (n,), n, 1, np.dtype(np.float64)

  def __len__(self):
    return self.size

  def __array__(self, *a, **k):
    raise Unsupported('1-D quadrature weights used outside weights_nd')

  def __getattr__(self, name):
    if name.startswith('__'):
      raise AttributeError(name)
    raise Unsupported(f'1-D quadrature weights used outside weights_nd (.{name})')


def StubQuad(nodes, w):
  """A `Quadrature1D` with free n-dimensional weights (contract of weights_nd: C09); node family differs from the grid so
  that the collocated short cut of `interpolate` is not taken unless requested."""
  from swirl_fem.core.interpolation import Quadrature1D

  class Quad(Quadrature1D):
    def weights_nd(self, ndim):
      return w
  return Quad(num_points=nodes.num_points, quadrature_type=nodes.node_type, nodes=nodes, weights=_Weights(nodes.num_points))


def nodes(kind, n):
  from swirl_fem.core.interpolation import Nodes1D, NodeType
  return Nodes1D.create(num_points=n, node_type={'nc': NodeType.NEWTON_COTES, 'gl': NodeType.GAUSS_LEGENDRE,
                                                 'gll': NodeType.GAUSS_LOBATTO_LEGENDRE}[kind])


def raw_mesh(coords, elements, gp):
  import jax.numpy as jnp
  from swirl_fem.core.mesh import Mesh
  return Mesh(node_coords=coords, elements=elements, node_indices=jnp.zeros((1,), jnp.int32),
              order=gp.num_points - 1, gridpoints_1d=gp)


def space(mesh, sz, I, G, w, invj, det, qc, collocated=False):
  """A FiniteElementSpace with arbitrary geometry factors (object invariant:
  shapes agree)."""
  from swirl_fem.core import fespace as fs
  from swirl_fem.core.interpolation import BarycentricInterpolator
  ev = nodes('gl', sz.nq1) if not collocated else mesh.gridpoints_1d
  it = make_interp(BarycentricInterpolator, I, G)(ndim=sz.ndim, gridpoints_1d=mesh.gridpoints_1d, evalpoints_1d=ev)
  return fs.FiniteElementSpace(mesh=mesh, quadrature=StubQuad(ev, w), interpolator=it,
                               invjacs=invj, jacdets=det, quad_coords=qc)


def geo_args(tr, sz, tag=''):
  """free arrays describing a space"""
  d = sz.ndim
  tr.add('I' + tag, (sz.Q, sz.P)); tr.add('G' + tag, (sz.Q, sz.P, d)); tr.add('w' + tag, (sz.Q,))
  e = tr.E
  tr.add('invj' + tag, (e, sz.Q, d, d)); tr.add('det' + tag, (e, sz.Q)); tr.add('qc' + tag, (e, sz.Q, d))


def get_space(a, mesh, sz, tag='', collocated=False):
  return space(mesh, sz, a['I' + tag], a['G' + tag], a['w' + tag], a['invj' + tag], a['det' + tag], a['qc' + tag],
               collocated)


def SUM(*dims):
  """fresh bound variables"""
  vs = [jv.fresh('s') for _ in dims]
  return vs, list(zip(vs, dims))


# ----------------------------------------------------------------------------- numeric meshes
def random_premesh(rng, ndim, kind=None, n=None, shuffle=True):
  """Random conforming first-order premesh: sheared/curved cube grids with
  randomly permuted node numbers, element order and element orientations."""
  from swirl_fem.common import premesh_commons as pc
  from swirl_fem.core.premesh import Premesh
  n = n or int(rng.integers(1, {1: 6, 2: 4, 3: 3}[ndim]))
  base = pc.unit_cube_mesh(n, ndim=ndim, a=-.3, b=1.1)
  X = np.array(base.node_coords, dtype=np.float64)
  A = np.eye(ndim) + .25 * rng.uniform(-1, 1, (ndim, ndim))
  if np.linalg.det(A) < .2:
    A = np.eye(ndim)
  X = X @ A.T + .12 / n * np.sin(2.3 * X[:, ::-1] + rng.uniform(0, 3)) + .1 / n * rng.uniform(-1, 1, X.shape)
  el = np.array(base.elements)
  groups = {k: np.array(v) for k, v in base.physical_groups.items()}
  if shuffle:
    perm = rng.permutation(len(X))           # new id of old node i
    Y = np.empty_like(X); Y[perm] = X
    X, el = Y, perm[el]
    groups = {k: perm[v] for k, v in groups.items()}
    el = el[rng.permutation(len(el))]
    el = np.stack([orient(e, ndim, rng) for e in el])
    groups = {k: np.stack([orient(f, ndim - 1, rng) if ndim > 1 else f for f in v]) for k, v in groups.items()}
  return Premesh.create(node_coords=X, elements=el.astype(np.int32),
                        physical_groups={k: v.astype(np.int32) for k, v in groups.items()})


def orient(e, d, rng, even=True):
  """random orientation preserving relabelling of a first-order tensor element"""
  if d <= 1 and even:
    return e
  t = e.reshape([2] * d)
  while True:
    p = rng.permutation(d)
    fl = [bool(rng.integers(2)) for _ in range(d)]
    sgn = np.linalg.det(np.eye(d)[p]) * (-1) ** sum(fl)
    if not even or sgn > 0:
      break
  return np.flip(t.transpose(p), [k for k in range(d) if fl[k]]).reshape(-1)

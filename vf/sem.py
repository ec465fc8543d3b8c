"""Symbolic StokesSEM objects (arbitrary meshes, geometry, masks) for jxvc, and
independent dense oracles for the numeric contracts."""
import contextlib
import numpy as np
import z3
from vf import fe, jxvc as jv
from vf.core import Unsupported


class SemTracer(fe.Tracer):
  """Free arrays of a StokesSEM object.

  Object invariant used (established by StokesSEM.create, see C21): the velocity
  and the pressure space share quadrature and element geometry; the velocity
  quadrature is collocated with the velocity nodes; exchange is the sum over
  classes of nodes with the same id (C02) and the identity on pressures (C07).
  """

  def __init__(self, ndim, nv=2, npr=3, no=3):
    from jax import export
    n, e, m = export.symbolic_shape('n,e,m', constraints=['n>=1', 'e>=1', 'm>=1'])
    N, E, M = z3.Ints('N E M')
    super().__init__([N >= 1, E >= 1, M >= 1], dict(n=N, e=E, m=M))
    self.n, self.E, self.m = n, e, m
    self.ndim, self.nv, self.npr, self.no = ndim, nv, npr, no
    d = ndim
    self.P, self.PP, self.QO = nv ** d, npr ** d, no ** d
    P, PP, QO = self.P, self.PP, self.QO
    self.elv = self.add('elv', (e, P), 'i'); self.elp = self.add('elp', (e, PP), 'i')
    self.add('Xv', (n, d)); self.add('Xp', (m, d))
    self.add('Gv', (P, P, d)); self.add('w', (P,)); self.add('det', (e, P)); self.add('invj', (e, P, d, d)); self.add('qc', (e, P, d))
    self.add('Iv', (P, P))
    self.add('Ip', (P, PP)); self.add('Gp', (P, PP, d))
    self.add('Io', (QO, P)); self.add('Go', (QO, P, d)); self.add('wo', (QO,)); self.add('deto', (e, QO))
    self.add('invjo', (e, QO, d, d)); self.add('qco', (e, QO, d))
    # mask, node classes
    self.dirichlet = z3.Function('is_dirichlet', z3.IntSort(), z3.BoolSort())
    self.add('mask', (n, 1), arr=jv.Arr((N, 1), 'f', lambda i, k: jv.Poly.const(1).guard(z3.Not(self.dirichlet(jv.iz(i))))))
    self.cls = z3.Function('node_class', z3.IntSort(), z3.IntSort())
    self.add('S', (n, n), arr=jv.Arr((N, N), 'f', lambda i, j: jv.Poly.const(1).guard(self.same(i, j))))
    self.add('mass', (n, d)); self.add('qqt', (n,))
    self.hyps = self.hyps + [fe.conn_hyps(self.elv, N), fe.conn_hyps(self.elp, M)]
    self.N, self.Ez, self.M = N, E, M

  def same(self, i, j):
    return self.cls(jv.iz(i)) == self.cls(jv.iz(j))

  @property
  def ar(self):
    return {k: a for k, (_, _, a) in self.args.items()}

  def make(self, a):
    """the real StokesSEM / StokesVelocity / StokesPressure over the free arrays"""
    from swirl_fem.navier_stokes import navier_stokes as ns
    from swirl_fem.core import fespace as fs
    from swirl_fem.core.interpolation import BarycentricInterpolator as BI
    d = self.ndim
    gv, gp, go = fe.nodes('gll', self.nv), fe.nodes('gl', self.npr), fe.nodes('gll', self.no)
    vm = fe.raw_mesh(a['Xv'], a['elv'], gv)
    pm = fe.raw_mesh(a['Xp'], a['elp'], gp)

    def sp(mesh, grid, ev, I, G, w, invj, det, qc):
      it = fe.make_interp(BI, I, G)(ndim=d, gridpoints_1d=grid, evalpoints_1d=ev)
      return fs.FiniteElementSpace(mesh=mesh, quadrature=fe.StubQuad(ev, w), interpolator=it, invjacs=invj, jacdets=det,
                                   quad_coords=qc)
    vs = sp(vm, gv, gv, a['Iv'], a['Gv'], a['w'], a['invj'], a['det'], a['qc'])
    ps = sp(pm, gp, gv, a['Ip'], a['Gp'], a['w'], a['invj'], a['det'], a['qc'])
    os_ = sp(vm, gv, go, a['Io'], a['Go'], a['wo'], a['invjo'], a['deto'], a['qco'])
    vel = ns.StokesVelocity(vspace=vs, overint_space=os_, interior_mask=a['mask'], diag_qqt=a['qqt'])
    return ns.StokesSEM(velocity=vel, pressure=ns.StokesPressure(pspace=ps), velocity_mass_diag=a['mass'])

  def run_sem(self, f, opaque=None):
    from swirl_fem.core.mesh import Mesh

    def fn(a):
      sem = self.make(a)
      real = Mesh.exchange
      vshape = a['elv'].shape

      def exchange(mesh, u):
        if mesh.elements.shape == vshape:
          import jax.numpy as jnp
          from jax import lax
          return jnp.einsum('ij,j->i', a['S'], u, precision=lax.Precision.HIGHEST)
        return u
      Mesh.exchange = exchange
      try:
        return f(sem, a)
      finally:
        Mesh.exchange = real
    return self.run(fn, opaque)

  # --- specification vocabulary
  def vloc(self, arr, m, p, k=None, masked=False):
    """element value of nodal velocity component"""
    i = self.elv.at(m, p)
    x = arr.at(i, k) if k is not None else arr.at(i)
    x = jv.ite(i == -1, jv.Poly(), x, 'f')
    return x.guard(z3.Not(self.dirichlet(i))) if masked else x

  def ploc(self, arr, m, p):
    i = self.elp.at(m, p)
    return jv.ite(i == -1, jv.Poly(), arr.at(i), 'f')

  def grad(self, f, m, q, j, o=''):
    """physical derivative j of element function f(m, p) at quadrature point q"""
    ar = self.ar
    G, J = (ar['Gv'], ar['invj']) if not o else (ar['Go'], ar['invjo'])
    (i, p), b = fe.SUM(self.ndim, self.P)
    return jv.sum_over(b, J.at(m, q, j, i) * G.at(q, p, i) * f(m, p))

  def pval(self, arr, m, q):
    (p,), b = fe.SUM(self.PP)
    return jv.sum_over(b, self.ar['Ip'].at(q, p) * self.ploc(arr, m, p))

  def oval(self, f, m, q):
    (p,), b = fe.SUM(self.P)
    return jv.sum_over(b, self.ar['Io'].at(q, p) * f(m, p))

  def integral(self, f, o=''):
    ar = self.ar
    w, det, Q = (ar['w'], ar['det'], self.P) if not o else (ar['wo'], ar['deto'], self.QO)
    (m, q), b = fe.SUM(self.Ez, Q)
    return jv.sum_over(b, w.at(q) * det.at(m, q) * f(m, q))

  def dotv(self, x, y):
    (i, k), b = fe.SUM(self.N, self.ndim)
    return jv.sum_over(b, x(i, k) * y(i, k))

  def dotp(self, x, y):
    (i,), b = fe.SUM(self.M)
    return jv.sum_over(b, x(i) * y(i))


def scalar(p):
  return jv.Arr([], 'f', lambda: p)


# ----------------------------------------------------------------------------- numeric side
def random_stokes_premesh(rng, ndim, periodic=(), n=None, affine=False):
  """first-order premesh with two boundary groups, multilinear elements"""
  from swirl_fem.common import premesh_commons as pc
  from swirl_fem.core.premesh import Premesh
  n = n or {1: 3, 2: 2, 3: 1}[ndim]
  base = pc.unit_cube_mesh(n, ndim=ndim, periodic_dims=tuple(periodic))
  X = np.array(base.node_coords, float)
  A = np.eye(ndim) + .25 * rng.uniform(-1, 1, (ndim, ndim))
  if np.linalg.det(A) < .2:
    A = np.eye(ndim)
  Y = X @ A.T
  if not affine:
    d = .15 / n * np.sin(2 * np.pi * (X + .1)) if periodic else .15 / n * np.sin(3 * X[:, ::-1] + .3)
    if periodic:   # displacement must be periodic: depend on periodic sines of all coordinates
      s = np.prod(np.cos(2 * np.pi * X), -1, keepdims=True)
      d = .1 / n * s * rng.uniform(-1, 1, (1, ndim))
    Y = Y + d
  groups = {}
  if base.physical_groups and 'boundary' in base.physical_groups and len(base.physical_groups['boundary']):
    bd = np.array(base.physical_groups['boundary'])
    sel = rng.uniform(size=len(bd)) < .5
    if len(bd) > 1 and (sel.all() or not sel.any()):
      sel[0] = not sel[0]
    groups = {'a': bd[sel].astype(np.int32), 'b': bd[~sel].astype(np.int32)}
    groups = {k: v for k, v in groups.items() if len(v)}
  kw = {}
  return base.replace(node_coords=Y, physical_groups=groups)


class DenseStokes:
  """Independent dense matrices of the Stokes operators (local numbering of nodes)."""

  def __init__(self, pm, sem, order, over=2):
    from vf.props.c10 import RefElem
    from numpy.polynomial import legendre as L
    vm, pmesh = sem.velocity.mesh, sem.pressure.pspace.mesh
    d = vm.ndim
    self.d = d
    el, X = np.asarray(vm.elements), np.asarray(vm.node_coords)
    ep = np.asarray(pmesh.elements)
    self.el, self.ep, self.X = el, ep, X
    N, M = len(X), int(pmesh.num_nodes)
    self.N, self.M = N, M
    g = gll(order + 1)
    ref = RefElem(g[0], g[0], g[1], d)
    pg = np.polynomial.legendre.leggauss(order - 1)[0]
    rp = RefElem(pg, g[0], g[1], d)
    go = gll(order + 1 + over)
    ro = RefElem(g[0], go[0], go[1], d)
    self.K = np.zeros((N, N)); self.mass = np.zeros(N); self.Dm = np.zeros((M, N, d)); self.MP = np.zeros((M, M))
    self.ro = ro
    self.geo_o = []
    self.grads = []
    for e, q in zip(el, ep):
      J = np.einsum('qpi,pj->qij', ref.G, X[e])
      gr = np.einsum('qji,qpi->qpj', np.linalg.inv(J), ref.G)
      W = np.linalg.det(J) * ref.W
      self.grads.append(gr)
      self.K[np.ix_(e, e)] += np.einsum('q,qaj,qbj->ab', W, gr, gr)
      self.mass[e] += W
      np.add.at(self.Dm, np.ix_(q, e), np.einsum('q,qp,qak->pak', W, rp.I, gr))
      self.MP[np.ix_(q, q)] += np.einsum('q,qa,qb->ab', W, rp.I, rp.I)
      Jo = np.einsum('qpi,pj->qij', ro.G, X[e])
      self.geo_o.append((np.einsum('qji,qpi->qpj', np.linalg.inv(Jo), ro.G), np.linalg.det(Jo) * ro.W))
    self.count = np.zeros(N); np.add.at(self.count, el, 1)
    # classes of identified nodes: positions of periodic images are identified through the premesh links
    self.ids = node_classes(pm, order, X)
    self.bd = None

  def conv(self, u):
    out = np.zeros((self.N, self.d))
    for e, (gr, W) in zip(self.el, self.geo_o):
      uq = self.ro.I @ u[e]
      gq = np.einsum('qpj,pk->qjk', gr, u[e])
      c = np.einsum('qi,qij->qj', uq, gq)
      np.add.at(out, e, np.einsum('q,qp,qj->pj', W, self.ro.I, c))
    return out

  def exchange(self, u):
    s = {}
    for i, c in enumerate(self.ids):
      s[c] = s.get(c, 0) + u[i]
    return np.array([s[c] for c in self.ids])


def gll(n):
  """Gauss-Lobatto-Legendre nodes and weights, from roots of P'_{n-1}."""
  from numpy.polynomial import legendre as L
  c = np.zeros(n); c[-1] = 1
  r = np.sort(L.legroots(L.legder(c)).real) if n > 2 else np.zeros(0)
  for _ in range(5):   # polish
    dc = L.legder(c); ddc = L.legder(dc)
    if len(r):
      r = r - L.legval(r, dc) / L.legval(r, ddc)
  x = np.concatenate([[-1.], r, [1.]])
  return x, 2 / (n * (n - 1) * L.legval(x, c) ** 2)


def node_classes(pm, order, X):
  """class id per refined node: the node, or the periodic class it belongs to.

  Independent of the links refinement: a refined node on a linked facet is the
  multilinear image of the facet corners; partners have the same facet weights.
  """
  links = pm.periodic_links
  n = len(X)
  parent = list(range(n))

  def find(i):
    while parent[i] != i:
      i = parent[i]
    return i
  if links is not None and len(links):
    P = np.asarray(pm.node_coords)
    g = gll(order + 1)[0]
    links = np.asarray(links)
    k = links.shape[-1]
    d = int(np.log2(k)) if k > 1 else 0
    pts = np.array(np.meshgrid(*([g] * d), indexing='ij')).reshape(d, -1).T if d else np.zeros((1, 0))
    wts = np.ones((len(pts), k))
    for c in range(k):
      for a in range(d):
        bit = (c >> (d - 1 - a)) & 1
        wts[:, c] *= (1 + pts[:, a]) / 2 if bit else (1 - pts[:, a]) / 2
    from collections import defaultdict
    for a, b in links:
      xa, xb = wts @ P[a], wts @ P[b]
      for p, q in zip(xa, xb):
        i = int(np.argmin(((X - p) ** 2).sum(-1))); j = int(np.argmin(((X - q) ** 2).sum(-1)))
        parent[find(i)] = find(j)
  return np.array([find(i) for i in range(n)])


def group_nodes(pm, group, order, X):
  """refined nodes lying on the facets of a physical group (by geometry)"""
  P = np.asarray(pm.node_coords)
  g = gll(order + 1)[0]
  out = set()
  for f in np.asarray(pm.physical_groups[group]):
    f = np.atleast_1d(f)
    k = len(f); d = int(np.log2(k)) if k > 1 else 0
    pts = np.array(np.meshgrid(*([g] * d), indexing='ij')).reshape(d, -1).T if d else np.zeros((1, 0))
    w = np.ones((len(pts), k))
    for c in range(k):
      for a in range(d):
        bit = (c >> (d - 1 - a)) & 1
        w[:, c] *= (1 + pts[:, a]) / 2 if bit else (1 - pts[:, a]) / 2
    for p in w @ P[f]:
      r = ((X - p) ** 2).sum(-1)
      i = int(np.argmin(r))
      assert r[i] < 1e-12, r[i]
      out.add(i)
  return out

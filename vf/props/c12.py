"""C12: the Poisson solver inverts the masked symmetric Galerkin operator."""
NOTE = ('Proof over the reals: the operator and right-hand side handed to the conjugate-gradient routine are captured from the '
        'real solve_poisson traced with symbolic mesh, geometry, masks and forcing, and proved to be the masked Galerkin '
        'operator and load vector; symmetry, semi-definiteness and the boundary mask follow as obligations. '
        'jax.scipy.sparse.linalg.cg enters through its contract; number of Dirichlet groups in the trace up to 2 (+1 Neumann).')

import numpy as np
import z3
from vf import fe, jxvc as jv
from vf.core import Failed, Unsupported
from vf.props.c10 import tracer, prove_eq_unrolled, RefElem

FUNCS = ['solve_poisson', 'solve_poisson.with_bc', 'solve_poisson.A', 'solve_poisson.B', 'Mesh.gather', 'Mesh.scatter',
         'FiniteElementSpace.local_covector']


class NpProxy:
  """numpy with `ones` also accepting symbolic sizes (contract: the array of ones)."""

  def __init__(self, np_):
    self._np = np_

  def __getattr__(self, k):
    return getattr(self._np, k)

  def ones(self, shape, dtype=None):
    import jax.numpy as jnp
    return jnp.ones(shape, dtype=dtype or float)


def prove(chk):
  chk.function(*FUNCS)
  chk.assume('real arithmetic instead of floating point',
             'jax.scipy.sparse.linalg.cg returns x in the Krylov space of (A, b) started at zero with |b - A x| <= max(tol |b|, atol) '
             '(dependency contract; non-convergence after its default iteration limit is outside the property)',
             'FiniteElementSpace.create and the interpolation matrices enter through their contracts (C08, C10): free geometry arrays',
             'boundary-condition dictionaries of up to 3 groups are traced (the dictionary is iterated by concrete Python)',
             'Jacobian determinants and quadrature weights are positive for the semi-definiteness (C09, valid elements)')
  chk.trust('JAX tracing and the primitive semantics of vf/jxvc.py', 'z3')
  prims = set()
  import jax
  from swirl_fem.examples import poisson as po
  D, N_ = po.BCType.DIRICHLET, po.BCType.NEUMANN
  pats = {'one Dirichlet': dict(m1=(D, 0.)), 'Dirichlet, Neumann, Dirichlet': dict(m1=(D, 0), m2=(N_, 0.), m3=(D, 0.)),
          'no Dirichlet': dict(m2=(N_, 0.))}
  for ndim, np1, nq1 in fe.sweep(chk):
    for pname, bcs in pats.items():
      if pname != 'one Dirichlet' and (ndim, np1) != (2, 2):
        continue
      sz = fe.Sizes(ndim, np1, nq1)
      P, Q, d = sz.P, sz.Q, ndim
      gp = fe.nodes('nc', sz.np1)
      tr = tracer(sz)
      E, N = tr.dims['e'], tr.dims['n']
      fe.geo_args(tr, sz)
      el = tr.add('el', (tr.E, P), 'i'); tr.add('X', (tr.n, d))
      f = tr.add('f', (tr.n,)); u = tr.add('u', (tr.n,)); v = tr.add('v', (tr.n,))
      for m in ('m1', 'm2', 'm3'):
        tr.add(m, (tr.n,), 'i')
      ar = {k: a for k, (_, _, a) in tr.args.items()}
      # mask entries are 0/1
      mk = {m: z3.Function('in_' + m, z3.IntSort(), z3.BoolSort()) for m in ('m1', 'm2', 'm3')}
      for m in mk:
        tr.args[m] = (tr.args[m][0], 'i', jv.Arr((N,), 'i', lambda i, m=m: z3.If(mk[m](jv.iz(i)), z3.IntVal(1), z3.IntVal(0))))
      tr.hyps = tr.hyps + [fe.conn_hyps(el, N)]
      box = {}

      def get(tr=tr, box=box, bcs=bcs, sz=sz, gp=gp):
        if 'r' in box:
          return box['r']

        def fn(a):
          import jax.numpy as jnp
          mesh = fe.raw_mesh(a['X'], a['el'], gp).replace(physical_masks={m: a[m] for m in mk})
          cap = {}

          class FES:
            @staticmethod
            def create(mesh_, quadrature):
              if mesh_ is not mesh:
                raise Unsupported('space created on another mesh')
              cap['quad'] = quadrature
              return fe.get_space(a, mesh, sz)

          def fake_cg(A, b, x0=None, *, tol=1e-5, atol=0.0, maxiter=None, M=None):
            cap.update(A=A, b=b, x0=x0, tol=tol, atol=atol, maxiter=maxiter, M=M)
            return a['u'], None
          real_cg, real_fes, real_np = jax.scipy.sparse.linalg.cg, po.FiniteElementSpace, po.np
          jax.scipy.sparse.linalg.cg, po.FiniteElementSpace, po.np = fake_cg, FES, NpProxy(real_np)
          try:
            out = po.solve_poisson(mesh, a['f'], boundary_conditions=bcs, rtol=.125, atol=.0625)
            if 'A' not in cap:
              raise Unsupported('the linear solver was not called')
            box['cap'] = cap
            mm = jnp.ones(mesh.num_nodes)
            for k, (t, _) in bcs.items():
              if t == D:
                mm = mm * (1 - a[k])
            mu, mv = a['u'] * mm, a['v'] * mm
            return dict(out=out, b=cap['b'], Au=cap['A'](a['u']), Amu=cap['A'](mu), Amv=cap['A'](mv),
                        x0=jnp.zeros(mesh.num_nodes) if cap['x0'] is None else cap['x0'])
          finally:
            jax.scipy.sparse.linalg.cg, po.FiniteElementSpace, po.np = real_cg, real_fes, real_np
        box['r'] = tr.run(fn)
        prims.update(tr.prims)
        return box['r']

      def interior(i, bcs=bcs, mk=mk):
        return z3.And([z3.Not(mk[k](jv.iz(i))) for k, (t, _) in bcs.items() if t == D] + [z3.BoolVal(True)])

      def val(arr, m, p, masked, el=el, interior=interior):
        i = el.at(m, p)
        x = jv.ite(i == -1, jv.Poly(), arr.at(i), 'f')
        return x.guard(interior(i)) if masked else x

      def gradl(fun, m, q, j, ar=ar, d=d, P=P):
        (i, p), b = fe.SUM(d, P)
        return jv.sum_over(b, ar['invj'].at(m, q, j, i) * ar['G'].at(q, p, i) * fun(m, p))

      def bil(x, y, masked, E=E, Q=Q, d=d, ar=ar, val=val, gradl=gradl):
        """sum_{m,q,j} w det (grad x)_j (grad y)_j"""
        (m, q, j), b = fe.SUM(E, Q, d)
        return jv.sum_over(b, ar['w'].at(q) * ar['det'].at(m, q) * gradl(lambda a_, p: val(x, a_, p, masked), m, q, j) *
                           gradl(lambda a_, p: val(y, a_, p, masked), m, q, j))

      def dot(x, y, N=N):
        (i,), b = fe.SUM(N)
        return jv.Arr([], 'f', lambda: jv.sum_over(b, x(i) * y(i)))
      sc = lambda p: jv.Arr([], 'f', lambda: p)
      tag = f'[{pname}, ndim {ndim}, order {np1 - 1}, {nq1} points]'

      def load(get=get, tr=tr, N=N, E=E, Q=Q, P=P, ar=ar, val=val, interior=interior, el=el, f=f, d=d):
        def spec(i):
          (m, q, p, p2), b = fe.SUM(E, Q, P, P)
          return jv.sum_over(b, (ar['w'].at(q) * ar['det'].at(m, q) * ar['I'].at(q, p) * ar['I'].at(q, p2) *
                                 val(f, m, p2, False)).guard(z3.And(el.at(m, p) == i, interior(i))))
        prove_eq_unrolled(get()['b'], jv.Arr((N,), 'f', spec), d, tr.hyps, 'load vector')
        cap = box['cap']
        if (cap['tol'], cap['atol']) != (.125, .0625):
          raise Failed(f'tolerances handed to cg: {cap["tol"]}, {cap["atol"]} instead of rtol, atol')
        if cap['maxiter'] is not None or cap['M'] is not None:
          raise Unsupported('iteration limit or preconditioner given')

      def operator(get=get, tr=tr, N=N, d=d, u=u, v=v, bil=bil, interior=interior, dot=dot, sc=sc):
        # <v, A(u)> tested against every v vanishing on the boundary, for every u
        lhs = dot(lambda i: v.at(i).guard(interior(i)), lambda i: get()['Amu'].at(i))
        prove_eq_unrolled(lhs, sc(bil(u, v, True)), d, tr.hyps, '<v, A u> = integral grad u . grad v')

      def sym(get=get, tr=tr, d=d, u=u, v=v, interior=interior, dot=dot):
        r = get()
        prove_eq_unrolled(dot(lambda i: v.at(i).guard(interior(i)), lambda i: r['Amu'].at(i)),
                          dot(lambda i: u.at(i).guard(interior(i)), lambda i: r['Amv'].at(i)), d, tr.hyps, 'symmetry')

      def psd(get=get, tr=tr, d=d, u=u, bil=bil, interior=interior, dot=dot, sc=sc):
        # <u, A u> = sum_{m,q,j} (w det) g^2: a sum of non-negative multiples of squares
        prove_eq_unrolled(dot(lambda i: u.at(i).guard(interior(i)), lambda i: get()['Amu'].at(i)),
                          sc(bil(u, u, True)), d, tr.hyps, 'sum of squares')

      def masked(get=get, tr=tr, N=N, interior=interior):
        i = jv.fresh('i')
        H = tr.hyps + [i >= 0, i < N, z3.Not(interior(i))]
        jv.prove_eq(get()['b'].at(i), jv.Poly(), H, 'load vector on Dirichlet nodes')
        jv.prove_eq(get()['Au'].at(i), jv.Poly(), H, 'operator on Dirichlet nodes')
        jv.prove_eq(get()['x0'].at(i), jv.Poly(), H, 'initial guess on Dirichlet nodes')

      def returned(get=get, tr=tr, N=N, u=u):
        jv.prove_arr_eq(get()['out'], u, tr.hyps, 'the solver result is returned')
      chk.oblige('load vector: masked integral of f v ' + tag, load, 'jxvc+z3')
      chk.oblige('<v, A u> = integral of grad u . grad v, all u, v vanishing on the boundary ' + tag, operator, 'jxvc+z3')
      chk.oblige('operator symmetric on functions vanishing on the boundary ' + tag, sym, 'jxvc+z3')
      chk.oblige('operator positive semi-definite (sum of squares) ' + tag, psd, 'jxvc+z3')
      if pname != 'no Dirichlet':
        chk.oblige('range, load and start vanish at Dirichlet nodes, so does every Krylov iterate ' + tag, masked, 'jxvc+z3')
      chk.oblige('result of the solver returned unchanged ' + tag, returned, 'jxvc+z3')

      if pname == 'one Dirichlet':
        def wrong(get=get, tr=tr, N=N, interior=interior):
          i = jv.fresh('i')
          jv.prove_eq(get()['Au'].at(i), jv.Poly(), tr.hyps + [i >= 0, i < N], 'operator vanishes everywhere')
        chk.canary('operator vanishing at every node ' + tag, wrong, 'jxvc+z3')
  chk.extra['primitives_interpreted'] = sorted(prims)


# ----------------------------------------------------------------------------- runtime contracts
def make_mesh(rng, ndim, order, affine=True, n=None, kind='gll'):
  from swirl_fem.common import premesh_commons as pc
  from swirl_fem.core.mesh_refiner import refine_premesh
  from swirl_fem.core.premesh import Premesh
  n = n or {1: 4, 2: 3, 3: 2}[ndim]
  base = pc.unit_cube_mesh(n, ndim=ndim)
  X = np.array(base.node_coords, float)
  A = np.eye(ndim) + .3 * rng.uniform(-1, 1, (ndim, ndim))
  if np.linalg.det(A) < .2:
    A = np.eye(ndim)
  # non-uniform but affine per element: stretch each axis, then shear
  grid = np.unique(np.round(X[:, 0], 9))
  st = np.sort(rng.uniform(0, 1, len(grid))) + np.arange(len(grid)) * .7
  X = np.stack([st[np.searchsorted(grid, np.round(X[:, k], 9) - 1e-7)] for k in range(ndim)], -1) @ A.T
  bd = np.array(base.physical_groups['boundary'])
  # groups: split the boundary facets in two
  sel = rng.uniform(size=len(bd)) < .5
  if sel.all() or not sel.any():
    sel[0] = not sel[0]
  perm = rng.permutation(len(X))
  Y = np.empty_like(X); Y[perm] = X
  groups = {'a': perm[bd[sel]].astype(np.int32), 'b': perm[bd[~sel]].astype(np.int32)}
  pm = Premesh.create(node_coords=Y, elements=perm[np.array(base.elements)].astype(np.int32), physical_groups=groups)
  if not (order == 1 and kind == 'nc'):
    pm = refine_premesh(pm, fe.nodes(kind, order + 1))
  return pm, pm.finalize()


def assemble(mesh, nq):
  """Independent dense stiffness and mass matrices with nq-point Gauss rule."""
  ndim = mesh.ndim
  x, w = np.polynomial.legendre.leggauss(nq)
  ref = RefElem(mesh.gridpoints_1d.node_values, x, w, ndim)
  el, X = np.asarray(mesh.elements), np.asarray(mesh.node_coords)
  N = len(X)
  K, M = np.zeros((N, N)), np.zeros((N, N))
  for e in el:
    J = np.einsum('qpi,pj->qij', ref.G, X[e])
    g = np.einsum('qji,qpi->qpj', np.linalg.inv(J), ref.G)
    W = np.linalg.det(J) * ref.W
    K[np.ix_(e, e)] += np.einsum('q,qaj,qbj->ab', W, g, g)
    M[np.ix_(e, e)] += np.einsum('q,qa,qb->ab', W, ref.I, ref.I)
  return K, M


def contracts(chk):
  import jax.numpy as jnp
  from swirl_fem.examples import poisson as po
  rng = np.random.default_rng(chk.seed)
  D, Nm = po.BCType.DIRICHLET, po.BCType.NEUMANN
  cases = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1), (2, 3), (1, 2), (3, 2)]
  for it in range(chk.n(6, 16)):
    ndim, order = cases[it % len(cases)]
    pm, mesh = make_mesh(rng, ndim, order, kind=['gll', 'nc'][it % 2])
    bcs = [dict(a=(D, 0.), b=(D, 0)), dict(b=(D, 0.)), dict(a=(Nm, 0.), b=(D, 0.))][it % 3]
    f = rng.uniform(-1, 1, mesh.num_nodes)
    inp = dict(ndim=ndim, order=order, node_coords=mesh.node_coords, elements=mesh.elements, f=f,
               bcs={k: (t.value, v) for k, (t, v) in bcs.items()}, groups=pm.physical_groups)

    def galerkin():
      u = np.asarray(po.solve_poisson(mesh, jnp.asarray(f), boundary_conditions=bcs, rtol=1e-12))
      bd = np.zeros(mesh.num_nodes, bool)
      for k, (t, _) in bcs.items():
        if t == D:
          bd[np.unique(np.asarray(pm.physical_groups[k]))] = True
      if np.any(u[bd] != 0):
        return dict(what='non-zero at Dirichlet nodes', u=u[bd])
      K, M = assemble(mesh, order + 3)
      r = (K @ u - M @ f)[~bd]
      sc = np.abs(K) @ np.abs(u) + np.abs(M) @ np.abs(f)
      if np.any(np.abs(r) > 1e-6 * (sc[~bd].max() + 1e-30)):
        return dict(what='Galerkin residual', residual=r, scale=sc[~bd].max())
    chk.case('galerkin', galerkin, inp)

  for it in range(2):
    # moderate tolerances must be honoured too (relative residual in the Euclidean norm)
    pm, mesh = make_mesh(rng, 2, 2)
    f = rng.uniform(-1, 1, mesh.num_nodes)
    rtol, atol = [(1e-3, 0.), (1e-12, 1e-3)][it]

    def tolerance():
      u = np.asarray(po.solve_poisson(mesh, jnp.asarray(f), boundary_conditions=dict(a=(D, 0.), b=(D, 0.)), rtol=rtol, atol=atol))
      bd = np.zeros(mesh.num_nodes, bool)
      for k in 'ab':
        bd[np.unique(np.asarray(pm.physical_groups[k]))] = True
      K, M = assemble(mesh, 5)
      b = (M @ f)[~bd]; r = b - (K @ u)[~bd]
      if np.linalg.norm(r) > 1.01 * max(rtol * np.linalg.norm(b), atol) + 1e-12:
        return dict(what='tolerance', residual=np.linalg.norm(r), allowed=max(rtol * np.linalg.norm(b), atol))
    chk.case('tolerance', tolerance, dict(f=f, rtol=rtol, atol=atol, node_coords=mesh.node_coords))

  def rejects():
    pm, mesh = make_mesh(rng, 1, 1, kind='nc')
    f = jnp.ones(mesh.num_nodes)
    for val in (1., -1, np.zeros(2), lambda x: 0., np.ones(2)):
      for t in (D, Nm):
        try:
          po.solve_poisson(mesh, f, boundary_conditions=dict(a=(D, 0.), b=(t, val)))
        except NotImplementedError:
          continue
        return dict(accepted=repr(val), type=t.value)
  chk.case('rejects other boundary values', rejects, None)

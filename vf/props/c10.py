"""C10: finite-element geometry, gradients and integrals."""
NOTE = ('Proof over the reals for all meshes (symbolic node and element counts), fields and reference matrices, ndim 1-3, '
        'from the jaxpr of the real functions; trusts JAX tracing, vf/jxvc.py, z3, and the contracts of jnp.linalg.inv '
        '(and of det for 1x1). Interpolation matrices and weights enter through the contracts of C08, C09.')

import itertools
import numpy as np
import z3
from vf import fe, jxvc as jv
from vf.core import Failed, Unsupported

FUNCS = ['FiniteElementSpace.create', 'FiniteElementSpace.integrate', 'FiniteElementSpace._evaluate',
         'NodalQFunction.__call__', 'ScalarNodalQFunction._evaluate', 'ScalarNodalQFunctionGrad._evaluate',
         'VectorNodalQFunction._evaluate', 'VectorNodalQFunctionGrad._evaluate', 'grad', 'div',
         'BarycentricInterpolator.interpolate', 'BarycentricInterpolator.interpolate_grad']


def det_poly(J, d):
  out = jv.Poly()
  for p in itertools.permutations(range(d)):
    s = round(np.linalg.det(np.eye(d)[list(p)]))
    t = jv.Poly.const(s)
    for i in range(d):
      t = t * J(i, p[i])
    out = out + t
  return out


def tracer(sz):
  (n, e), dims, hyps = fe.symbolic_dims()
  tr = fe.Tracer(hyps, dims)
  tr.n, tr.E = n, e
  return tr


def prove(chk):
  chk.function(*FUNCS)
  chk.assume('real arithmetic instead of floating point',
             'reference sizes P, Q per dimension are concrete in the trace but never unrolled by the index-notation '
             'proof; number of nodes and elements are symbolic',
             'interpolation / gradient matrices and quadrature weights are free arrays (their contracts are C08, C09)')
  chk.trust('JAX tracing and the primitive semantics of vf/jxvc.py', 'z3',
            'jnp.linalg.inv returns the inverse of its argument (contract by name)')
  prims = set()
  for ndim, np1, nq1 in fe.sweep(chk):
    sz = fe.Sizes(ndim, np1, nq1)
    tag = f'ndim {ndim}, order {np1 - 1}, {nq1} points'
    P, Q, d = sz.P, sz.Q, ndim
    create_obls(chk, sz, prims, tag)

    tr = tracer(sz)
    N, E = tr.dims['n'], tr.dims['e']
    fe.geo_args(tr, sz)
    u = tr.add('u', (tr.E, P)); vv = tr.add('v', (tr.E, P, d)); g = tr.add('g', (tr.E, Q))
    tr.add('X', (tr.n, d)); tr.add('el', (tr.E, P), 'i')
    tr.add('c0', ()); c1 = tr.add('c1', (d,)); c2 = tr.add('c2', (d, d))
    ar = {k: a for k, (_, _, a) in tr.args.items()}
    gp = fe.nodes('nc', sz.np1)

    def outs(colloc=False):
      from swirl_fem.core import fespace as fs

      def fn(a):
        s = fe.get_space(a, fe.raw_mesh(a['X'], a['el'], gp), sz)
        us, uv = s.scalar_function(a['u']), s.vector_function(a['v'])
        gg = fe.given(s, a['g'])
        ana = lambda x: a['c0'] + (a['c1'] * x).sum() + (a['c2'] * x[:, None] * x[None, :]).sum()
        return dict(us=fe.evaluate(s, us), uv=fe.evaluate(s, uv), gs=fe.evaluate(s, fs.grad(us)), gv=fe.evaluate(s, fs.grad(uv)),
                    div=fe.evaluate(s, fs.div(uv)), ig=s.integrate(gg), ana=s.integrate(ana),
                    igu=s.integrate(lambda x: gg(x) * us(x)))
      r = tr.run(fn)
      prims.update(tr.prims)
      return r
    box = {}

    def get(k):
      if 'r' not in box:
        box['r'] = outs()
      return box['r'][k]
    H = tr.hyps

    def val(e_, q, arr=u):
      (p,), b = fe.SUM(P)
      return jv.sum_over(b, ar['I'].at(q, p) * arr.at(e_, p))

    def gradx(e_, q, j, f):
      (i, p), b = fe.SUM(d, P)
      return jv.sum_over(b, ar['invj'].at(e_, q, j, i) * ar['G'].at(q, p, i) * f(p))

    def integral(f):
      (m, q), b = fe.SUM(E, Q)
      return jv.sum_over(b, f(m, q) * ar['det'].at(m, q) * ar['w'].at(q))
    A = jv.Arr
    specs = dict(
        us=A([E, Q], 'f', lambda m, q: val(m, q)),
        uv=A([E, Q, d], 'f', lambda m, q, k: jv.sum_over(*(lambda vb: (vb[1], ar['I'].at(q, vb[0][0]) * vv.at(m, vb[0][0], k)))(fe.SUM(P)))),
        gs=A([E, Q, d], 'f', lambda m, q, j: gradx(m, q, j, lambda p: u.at(m, p))),
        gv=A([E, Q, d, d], 'f', lambda m, q, j, k: gradx(m, q, j, lambda p: vv.at(m, p, k))),
        div=A([E, Q], 'f', lambda m, q: sum((gradx(m, q, z3.IntVal(k), lambda p, k=k: vv.at(m, p, k)) for k in range(d)), jv.Poly())),
        ig=A([], 'f', lambda: integral(lambda m, q: g.at(m, q))),
        igu=A([], 'f', lambda: integral(lambda m, q: g.at(m, q) * val(m, q))),
        ana=A([], 'f', lambda: integral(lambda m, q: ar['c0'].at() + sum(
            (c1.at(i) * ar['qc'].at(m, q, i) for i in range(d)), jv.Poly()) + sum(
            (c2.at(i, j) * ar['qc'].at(m, q, i) * ar['qc'].at(m, q, j) for i in range(d) for j in range(d)), jv.Poly()))),
    )
    names = dict(us='value of a scalar nodal function', uv='value of a vector nodal function',
                 gs='gradient (scalar): chain rule with inverse Jacobian', gv='gradient (vector): derivative index first',
                 div='divergence is the trace', ig='integral of a function given at quadrature points',
                 igu='integral of a product', ana='integral of an analytic function at the mapped points')
    for k, spec in specs.items():
      def ob(k=k, spec=spec):
        got = get(k)
        if k in ('ana', 'div'):
          # small constant ranges on one side only: compare after unrolling
          got = unroll(got, d)
          spec = unroll(spec, d)
        jv.prove_arr_eq(got, spec, H, names[k])
      chk.oblige(f'{names[k]}[{tag}]', ob, 'jxvc+z3')

    if ndim > 1:
      def wrong():
        bad = A([E, Q, d], 'f', lambda m, q, j: jv.sum_over(*(lambda vb: (vb[1], ar['invj'].at(m, q, vb[0][0], j) *
              ar['G'].at(q, vb[0][1], vb[0][0]) * u.at(m, vb[0][1])))(fe.SUM(d, P))))
        jv.prove_arr_eq(get('gs'), bad, H, 'transposed inverse Jacobian')
      chk.canary(f'gradient with the transposed inverse Jacobian[{tag}]', wrong, 'jxvc+z3')
  chk.extra['primitives_interpreted'] = sorted(prims)


def prove_eq_unrolled(a, b, d, hyps, what):
  """equality, first with symbolic sums over the space dimension, then with these expanded"""
  try:
    jv.prove_arr_eq(a, b, hyps, what)
  except Failed:
    if any(expansion(x, d) > 200 for x in (a, b)):
      raise
    jv.prove_arr_eq(unroll(a, d), unroll(b, d), hyps, what)


def expansion(arr, d):
  n = 0
  for m in arr.at(*[jv.fresh('i') for _ in arr.shape]).ms:
    t = 1
    for _, k in m.bound:
      if not jv.is_sym(k) and int(k) <= d:
        t *= int(k)
    n += t
  return n


def unroll(arr, d):
  """expands sums whose constant range is the space dimension"""
  def un(p):
    out = jv.Poly()
    for m in p.ms:
      todo = [m]
      while todo:
        x = todo.pop()
        for v, n in x.bound:
          if not jv.is_sym(n) and int(n) <= d:
            rest = tuple(b for b in x.bound if b[0].get_id() != v.get_id())
            y = jv.Mono(x.c, rest, x.guards, x.atoms)
            todo += [y.subst([(v, z3.IntVal(k))]) for k in range(int(n))]
            break
        else:
          out = out + jv.Poly([x])
    return out
  return jv.Arr(arr.shape, arr.kind, lambda *i: un(arr.at(*i)))


def create_obls(chk, sz, prims, tag):
  d, P, Q = sz.ndim, sz.P, sz.Q
  tr = tracer(sz)
  E, N = tr.dims['e'], tr.dims['n']
  X = tr.add('X', (tr.n, d)); el = tr.add('el', (tr.E, P), 'i')
  I = tr.add('I', (Q, P)); G = tr.add('G', (Q, P, d)); tr.add('w', (Q,))
  # elements are either entirely real or entirely padding (C24: partitions are padded by whole elements)
  hm, hp = z3.Ints('hm hp')
  whole = z3.ForAll([hm, hp], (el.at(hm, hp) == -1) == (el.at(hm, z3.IntVal(0)) == -1), patterns=[el.at(hm, hp)])
  tr.hyps = tr.hyps + [fe.conn_hyps(el, N), whole]
  jacs = {}

  def pad(m):
    return el.at(m, z3.IntVal(0)) == -1

  def h_inv(it, eqn, ins):
    jacs['J'] = ins[0]
    return [jv.rarr('INVJ', list(ins[0].shape))]
  box = {}

  def get():
    if 'r' in box:
      return box['r']
    from swirl_fem.core import fespace as fs
    from swirl_fem.core.interpolation import BarycentricInterpolator
    gp = fe.nodes('nc', sz.np1)
    real = fs.BarycentricInterpolator

    def fn(a):
      fs.BarycentricInterpolator = fe.make_interp(BarycentricInterpolator, a['I'], a['G'])
      try:
        s = fs.FiniteElementSpace.create(fe.raw_mesh(a['X'], a['el'], gp),
                                         fe.StubQuad(fe.nodes('gl', sz.nq1), a['w']))
      finally:
        fs.BarycentricInterpolator = real
      return dict(qc=s.quad_coords, det=s.jacdets, inv=s.invjacs)
    def h_det1(it, eqn, ins):
      return [jv.Arr(ins[0].shape[:-2], 'f', lambda *i: ins[0].at(*i, z3.IntVal(0), z3.IntVal(0)))]
    op = {'pjit:inv': h_inv}
    if d == 1:
      op['pjit:det'] = h_det1
    box['r'] = tr.run(fn, opaque=op)
    prims.update(tr.prims)
    return box['r']

  def coord0(m, p, j):
    return jv.ite(el.at(m, p) == -1, jv.Poly(), X.at(el.at(m, p), j), 'f')

  def real(arr):
    """restriction to the elements that are not padding"""
    return jv.Arr(arr.shape, 'f', lambda m, *i: jv.ite(pad(m), jv.Poly(), arr.at(m, *i), 'f'))

  def Jspec(m, q, i, j):
    (p,), b = fe.SUM(P)
    return jv.sum_over(b, G.at(q, p, i) * coord0(m, p, j))

  def qc():
    spec = jv.Arr([E, Q, d], 'f', lambda m, q, j: (lambda vb: jv.sum_over(vb[1], I.at(q, vb[0][0]) * coord0(m, vb[0][0], j)))(fe.SUM(P)))
    jv.prove_arr_eq(real(get()['qc']), real(spec), tr.hyps, 'quad_coords')

  def jac():
    get()
    if 'J' not in jacs:
      raise Unsupported('no matrix inverse found')
    jv.prove_arr_eq(real(jacs['J']), real(jv.Arr([E, Q, d, d], 'f', Jspec)), tr.hyps, 'jacobian')

  def inv():
    jv.prove_arr_eq(get()['inv'], jv.rarr('INVJ', [E, Q, d, d]), tr.hyps, 'invjacs')

  def det():
    # modular: the determinant of the array that was proved equal to the Jacobian
    get()
    J = jv.rarr('JJ', [E, Q, d, d])
    m, q = jv.fresh('m'), jv.fresh('q')
    H = tr.hyps + [m >= 0, m < E, q >= 0, q < Q]
    # abstract every Jacobian entry by a free array entry on both sides
    tr2 = DetTracer(tr, jacs, sz)
    jv.prove_eq(tr2.det_at(m, q, d), jv.ite(pad(m), jv.Poly(), det_poly(
        lambda i, j: J.at(m, q, z3.IntVal(i), z3.IntVal(j)), d), 'f'), H, 'det')
  chk.oblige(f'create: quadrature coordinates are mapped points[{tag}]', qc, 'jxvc+z3')
  chk.oblige(f'create: matrix inverted is the element-map derivative[{tag}]', jac, 'jxvc+z3')
  chk.oblige(f'create: inverse stored unchanged[{tag}]', inv, 'jxvc+z3')
  chk.oblige(f'create: determinant is that of the same Jacobian, zero on padding[{tag}]', det, 'jxvc+z3')


class DetTracer:
  """Re-interprets create() with the array passed to `inv` replaced by a free
  array JJ at the point where it is produced (both uses read the same variable)."""

  def __init__(self, tr, jacs, sz):
    self.tr, self.jacs, self.sz = tr, jacs, sz

  def det_at(self, m, q, d):
    import jax
    from swirl_fem.core import fespace as fs
    from swirl_fem.core.interpolation import BarycentricInterpolator
    tr = self.tr
    gp = fe.nodes('nc', self.sz.np1)
    real = fs.BarycentricInterpolator
    seen = {}

    def fn(a):
      fs.BarycentricInterpolator = fe.make_interp(BarycentricInterpolator, a['I'], a['G'])
      try:
        s = fs.FiniteElementSpace.create(fe.raw_mesh(a['X'], a['el'], gp),
                                         fe.StubQuad(fe.nodes('gl', self.sz.nq1), a['w']))
      finally:
        fs.BarycentricInterpolator = real
      return s.jacdets

    def h_det(it, eqn, ins):
      if d == 1:   # contract of jnp.linalg.det on 1x1 matrices (implemented by an LU factorisation)
        x = ins[0]
        jv.prove_arr_eq(x, self.jacs['J'], tr.hyps, 'det argument')
        J = jv.rarr('JJ', list(x.shape))
        return [jv.Arr(x.shape[:-2], 'f', lambda *i: J.at(*i, z3.IntVal(0), z3.IntVal(0)))]
      x = ins[0]
      J = jv.rarr('JJ', list(x.shape))
      # the argument must be the very array that is inverted
      jv.prove_arr_eq(x, self.jacs['J'], tr.hyps, 'det argument')
      return it._call(eqn.params['jaxpr'], [J])
    def h_inv(it, eqn, ins):
      return [jv.rarr('INVJ', list(ins[0].shape))]
    out = tr.run(fn, opaque={'pjit:inv': h_inv, 'pjit:det': h_det})
    return out.at(m, q)


# ----------------------------------------------------------------------------- runtime contracts
def contracts(chk):
  import jax, jax.numpy as jnp
  from swirl_fem.core import fespace as fs
  from swirl_fem.core.interpolation import Nodes1D, NodeType, Quadrature1D
  from swirl_fem.core.mesh_refiner import refine_premesh
  rng = np.random.default_rng(chk.seed)
  for it in range(chk.n(9, 36)):
    ndim = [1, 2, 3][it % 3]
    pm = fe.random_premesh(rng, ndim, n=1 + it % 2 if ndim == 3 else None)
    order = int(rng.integers(1, [9, 6, 4][ndim - 1]))
    gp = fe.nodes(['nc', 'gll', 'gl'][int(rng.integers(3))], order + 1)
    if order > 1 or gp.node_type != NodeType.NEWTON_COTES:
      rp = refine_premesh(pm, gp)
    else:
      rp = pm
    # curve the elements: displace all nodes smoothly
    X = np.array(rp.node_coords)
    X = X + .05 * np.sin(X[:, ::-1] * 2 + 1)
    if it % 4 == 3:                      # mirrored: negative determinants
      X = X * np.where(np.arange(ndim) == it % ndim, -1., 1.)
    sc = [1., 2. ** -14, 1., 2. ** 12, 1., 2. ** -30][it % 6]     # very small and very large elements
    X = X * sc
    rp = rp.replace(node_coords=X)
    mesh = rp.finalize()
    nq = order + 2
    quad = Quadrature1D.create(num_points=nq, quadrature_type=[NodeType.GAUSS_LEGENDRE, NodeType.GAUSS_LOBATTO_LEGENDRE][it % 2])
    sp = fs.FiniteElementSpace.create(mesh, quad)
    el = np.asarray(mesh.elements)
    inp = dict(ndim=ndim, node_coords=X, elements=el, gridpoints=gp.node_values, quad=quad.nodes.node_values)
    ref = RefElem(gp.node_values, quad.nodes.node_values, quad.weights, ndim)

    Xe = X[el]
    J = np.einsum('qpi,mpj->mqij', ref.G, Xe)

    def close(a, b, what, tol=1e-9):
      a, b = np.asarray(a), np.asarray(b)
      if a.shape != b.shape or not np.allclose(a, b, rtol=1e-8, atol=tol * (np.abs(b).max() if sc != 1. else 1.)):
        return dict(what=what, got=a, want=b)

    def geometry():
      return (close(sp.quad_coords, np.einsum('qp,mpj->mqj', ref.I, Xe), 'quad_coords') or
              close(sp.jacdets, np.linalg.det(J), 'jacdets') or
              close(np.einsum('mqij,mqjk->mqik', np.asarray(sp.invjacs), J), np.broadcast_to(np.eye(ndim), J.shape), 'invjacs', 1e-7))
    chk.case('geometry', geometry, inp)

    u = rng.uniform(-1, 1, mesh.num_nodes); v = rng.uniform(-1, 1, (mesh.num_nodes, ndim))
    ul, vl = u[el], v[el]
    Ji = np.linalg.inv(J)

    def gradients():
      us, vs = sp.scalar_function(jnp.asarray(ul)), sp.vector_function(jnp.asarray(vl))
      gs = np.einsum('mqji,qpi,mp->mqj', Ji, ref.G, ul)
      gv = np.einsum('mqji,qpi,mpk->mqjk', Ji, ref.G, vl)
      return (close(fe.evaluate(sp, us), np.einsum('qp,mp->mq', ref.I, ul), 'scalar value') or
              close(fe.evaluate(sp, vs), np.einsum('qp,mpk->mqk', ref.I, vl), 'vector value') or
              close(fe.evaluate(sp, fs.grad(us)), gs, 'scalar gradient', 1e-7) or
              close(fe.evaluate(sp, fs.grad(vs)), gv, 'vector gradient', 1e-7) or
              close(fe.evaluate(sp, fs.div(vs)), np.einsum('mqkk->mq', gv), 'divergence', 1e-7))
    chk.case('gradients', gradients, dict(inp, u=u, v=v))

    def integrals():
      us, vs = sp.scalar_function(jnp.asarray(ul)), sp.vector_function(jnp.asarray(vl))
      W = np.linalg.det(J) * ref.W
      q = np.einsum('qp,mpj->mqj', ref.I, Xe)
      f = lambda x: jnp.exp(x[0] / sc) + (x[-1] / sc) ** 2
      fv = np.exp(q[..., 0] / sc) + (q[..., -1] / sc) ** 2
      gs = np.einsum('mqji,qpi,mp->mqj', Ji, ref.G, ul)
      vv = np.einsum('qp,mpk->mqk', ref.I, vl)
      return (close(sp.integrate(f), (fv * W).sum(), 'integral of analytic function') or
              close(sp.integrate(lambda x: f(x) * us(x)), (fv * np.einsum('qp,mp->mq', ref.I, ul) * W).sum(), 'product') or
              close(sp.integrate(lambda x: jnp.dot(fs.grad(us)(x), vs(x))), ((gs * vv).sum(-1) * W).sum(), 'grad dot') or
              close(sp.integrate(lambda x: jnp.dot(fs.grad(f)(x), vs(x))),
                    ((np.stack([(np.exp(q[..., 0] / sc) / sc if k == 0 else 0 * q[..., 0]) + (2 * q[..., -1] / sc ** 2 if k == ndim - 1 else 0)
                               for k in range(ndim)], -1) * vv).sum(-1) * W).sum(), 'analytic grad dot'))
    chk.case('integrals', integrals, dict(inp, u=u, v=v))
  anisotropic(chk)
  uneven(chk, rng)


def anisotropic(chk):
  """thin elements: one side of the box is many orders of magnitude smaller than the others"""
  import jax.numpy as jnp
  from swirl_fem.core import fespace as fs
  from swirl_fem.core.interpolation import Quadrature1D, NodeType
  from swirl_fem.core.mesh import Mesh
  for ndim, axis, h in [(2, 1, 1e-10), (2, 0, 1e-17), (3, 2, 1e-16), (2, 1, 1e16), (3, 0, 1e12)]:
    s = np.where(np.arange(ndim) == axis, h, 1.)
    X = np.stack(np.meshgrid(*[[0., 1.]] * ndim, indexing='ij'), -1).reshape(-1, ndim) * s

    def thin(ndim=ndim, X=X, s=s):
      mesh = Mesh.create(node_coords=jnp.asarray(X), elements=jnp.arange(2 ** ndim)[None])
      sp = fs.FiniteElementSpace.create(mesh, Quadrature1D.create(2, NodeType.GAUSS_LEGENDRE))
      for what, got, want in [('invjacs', np.asarray(sp.invjacs)[0], np.diag(2. / s)), ('jacdets', np.asarray(sp.jacdets)[0], np.prod(s / 2))]:
        size = np.outer(np.ones(ndim), 2. / s) if what == 'invjacs' else np.prod(s / 2)
        if not np.all(np.abs(got - want) <= 1e-7 * np.maximum(size, size.T if what == 'invjacs' else 0) ):
          return dict(what=what, got=got, want=want)
        if what == 'invjacs' and not np.allclose(np.stack([np.diag(g) for g in got]), 2. / s, rtol=1e-7, atol=0):
          return dict(what=what, got=got, want=want)
    chk.case('thin elements', thin, dict(ndim=ndim, axis=axis, thickness=h))


def uneven(chk, rng):
  """padding elements of unevenly partitioned meshes contribute nothing to any integral"""
  import jax, jax.numpy as jnp
  from swirl_fem.core import fespace as fs
  from swirl_fem.core.interpolation import NodeType, Quadrature1D
  from swirl_fem.core.mesh_refiner import refine_premesh
  for it in range(chk.n(2, 8)):
    ndim = 1 + (it + 1) % 2 if chk.n(0, 1) == 0 else 1 + it % 3
    pm = fe.random_premesh(rng, ndim, n=[5, 3, 2][ndim - 1])
    pm = pm.replace(node_coords=np.asarray(pm.node_coords) + 3.)          # away from the origin
    E = pm.elements.shape[0]
    k = int(rng.integers(2, 4))
    parts = np.concatenate([np.arange(k), rng.integers(0, k, E - k)])
    while len(set(np.bincount(parts, minlength=k))) == 1:
      parts[rng.integers(k, E)] = rng.integers(0, k)
    parts = parts[rng.permutation(E)]
    rp = refine_premesh(pm.replace(partitions=parts.astype(np.int32)), fe.nodes('gll', 3))
    mesh = rp.finalize(axis_name='i')
    quad = Quadrature1D.create(num_points=4, quadrature_type=NodeType.GAUSS_LEGENDRE)

    def total(m):
      V = fs.FiniteElementSpace.create(m, quad)
      u = V.scalar_function(m.gather(jnp.sin(m.node_coords.sum(-1))))
      one = jnp.ones(ndim)
      return dict(grad=V.integrate(lambda x: jnp.dot(fs.grad(u)(x), one)), value=V.integrate(u),
                  reciprocal=V.integrate(lambda x: 1. / x[0]), log=V.integrate(lambda x: u(x) * jnp.log(x[-1])))

    def contract():
      got = {n: np.asarray(v) for n, v in jax.pmap(total, axis_name='i')(mesh).items()}
      want = total(refine_premesh(pm, fe.nodes('gll', 3)).finalize())
      for n, v in got.items():
        if not np.allclose(v.sum(), float(want[n]), rtol=1e-9, atol=1e-9):
          return dict(what='integral ' + n + ' summed over partitions', got=v, want=float(want[n]))
    chk.case('integrals on unevenly partitioned meshes', contract,
             dict(ndim=ndim, node_coords=pm.node_coords, elements=pm.elements, partitions=parts))


class RefElem:
  """Independent reference-element matrices via monomial (Vandermonde/Legendre) solves."""

  def __init__(self, grid, ev, w, ndim):
    from numpy.polynomial import legendre as L
    n = len(grid)
    V = L.legvander(np.asarray(grid), n - 1)
    Ve = L.legvander(np.asarray(ev), n - 1)
    D = np.stack([L.legval(np.asarray(ev), L.legder(np.eye(n)[k])) if n > 1 else 0 * np.asarray(ev) for k in range(n)], -1)
    I1, D1 = np.linalg.solve(V.T, Ve.T).T, np.linalg.solve(V.T, D.T).T
    def kron(ms):
      r = np.ones((1, 1))
      for m in ms:
        r = np.einsum('ab,cd->acbd', r, m).reshape(r.shape[0] * m.shape[0], r.shape[1] * m.shape[1])
      return r
    self.I = kron([I1] * ndim)
    self.G = np.stack([kron([D1 if k == j else I1 for k in range(ndim)]) for j in range(ndim)], -1)
    self.W = None
    if w is not None:
      W = np.ones(1)
      for _ in range(ndim):
        W = np.outer(W, w).reshape(-1)
      self.W = W

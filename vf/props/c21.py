"""C21: Stokes operators."""
NOTE = ('Proof over the reals for arbitrary meshes, geometry, masks and fields (symbolic sizes, ndim 1-3): A, B, Bi, C, D, Dt, the '
        'pressure mass and projection are traced from the real methods and compared with their weak forms; symmetry, duality and '
        'masks are obligations of their own. StokesSEM.create is proved to establish the masks, mass diagonal and multiplicities; '
        'that both spaces share geometry and that exchange is the class sum are contracts C02, C07, C10.')

import numpy as np
import z3
from vf import fe, jxvc as jv, sem as sm
from vf.core import Failed, Unsupported, locate
from vf.props.c10 import prove_eq_unrolled
from vf.props.c12 import NpProxy

FUNCS = ['StokesSEM.A', 'StokesSEM.B', 'StokesSEM.Bi', 'StokesSEM.C', 'StokesSEM.D', 'StokesSEM.Dt', 'StokesSEM.D_local',
         'StokesSEM.Dt_local', 'StokesVelocity.A_local', 'StokesVelocity.B_local', 'StokesVelocity.C_local', 'StokesVelocity.C',
         'StokesVelocity.gather', 'StokesVelocity.scatter', 'StokesVelocity.exchange', 'StokesPressure.B', 'StokesSEM.create',
         'StokesVelocity.create', 'StokesPressure.create', 'dirichlet_bc', '_pressure_project_out_nullspace']


def project(sem, p):
  from swirl_fem.navier_stokes import navier_stokes as ns
  return getattr(ns, locate(ns, '_pressure_project_out_nullspace', ('sem', 'p')))(sem, p)


def prove(chk):
  chk.function(*FUNCS)
  chk.assume('real arithmetic instead of floating point',
             'object invariant of StokesSEM: shared quadrature and element geometry of the velocity and pressure spaces, velocity '
             'quadrature collocated with the nodes (established by create: checked structurally for orders 2-6, geometry by C07/C10)',
             'exchange sums over classes of identified nodes (contract C02), identity on the discontinuous pressures (C07)',
             'the summed mass and the total measure are non-zero (positive weights C09, valid elements)',
             'boundary-condition dictionaries of up to 3 groups are traced')
  chk.trust('JAX tracing and the primitive semantics of vf/jxvc.py', 'z3')
  prims = set()
  # element sizes are Python constants of the traced program: a low and a high order per dimension (the proofs do not unroll them)
  sizes = [(2, 3, 3), (7, 5, 9)] + ([(4, 2, 6), (11, 9, 13)] if chk.deep else [])
  for ndim, (nv, npr, no) in [(a, b) for a in (1, 2, 3) for b in sizes]:
    d = ndim
    tr = sm.SemTracer(ndim, nv=nv, npr=npr, no=no)
    u = tr.add('u', (tr.n, d)); v = tr.add('v', (tr.n, d)); p = tr.add('p', (tr.m,))
    uc = jv.rarr('uc', (tr.N, d))
    tr.add('us', (tr.n, d), arr=jv.Arr((tr.N, d), 'f', lambda i, k: uc.at(tr.cls(jv.iz(i)), k)))
    box = {}

    def get(tr=tr, box=box, prims=prims):
      if 'r' in box:
        return box['r']
      from swirl_fem.navier_stokes import navier_stokes as ns

      def f(sem, a):
        mu, mv = a['mask'] * a['u'], a['mask'] * a['v']
        return dict(Au=sem.A(a['u']), Amu=sem.A(mu), Amv=sem.A(mv), Bu=sem.B(a['u']), Cu=sem.C(a['u']), Du=sem.D(a['u']),
                    Dmv=sem.D(mv), Dtp=sem.Dt(a['p']), Bp=sem.pressure.B(a['p']), Bi=sem.Bi(a['mass'] * a['us']),
                    Biu=sem.Bi(a['u']), exm=sem.velocity.exchange(a['mass']), proj=project(sem, a['p']),
                    Bl=sem.velocity.B_local(sem.velocity.gather(a['u'])))
      box['r'] = tr.run_sem(f)
      prims.update(tr.prims)
      return box['r']
    H = tr.hyps
    t = f'[ndim {ndim}, {nv} nodes]'
    G, I = tr.grad, tr.integral
    msk = lambda i: z3.Not(tr.dirichlet(i))

    def eq(a, b, what, tr=tr, d=d):
      prove_eq_unrolled(a, b, d, tr.hyps, what)

    def sumd(*n):
      return fe.SUM(*n)

    def stiff(x, y, mx, my, G=G, I=I, tr=tr, d=d):
      def at(m, q):
        (j, k), b = fe.SUM(d, d)
        return jv.sum_over(b, G(lambda a_, p_: tr.vloc(x, a_, p_, k, mx), m, q, j) * G(lambda a_, p_: tr.vloc(y, a_, p_, k, my), m, q, j))
      return sm.scalar(I(at))

    def A_weak(get=get, tr=tr, v=v, u=u, stiff=stiff, msk=msk, eq=eq):
      eq(sm.scalar(tr.dotv(lambda i, k: v.at(i, k), lambda i, k: get()['Au'].at(i, k))), stiff(u, v, False, True), 'stiffness')

    def A_sym(get=get, tr=tr, v=v, u=u, eq=eq, msk=msk):
      eq(sm.scalar(tr.dotv(lambda i, k: v.at(i, k).guard(msk(i)), lambda i, k: get()['Amu'].at(i, k))),
         sm.scalar(tr.dotv(lambda i, k: u.at(i, k).guard(msk(i)), lambda i, k: get()['Amv'].at(i, k))), 'symmetry')

    def A_psd(get=get, tr=tr, u=u, stiff=stiff, eq=eq, msk=msk):
      eq(sm.scalar(tr.dotv(lambda i, k: u.at(i, k).guard(msk(i)), lambda i, k: get()['Amu'].at(i, k))), stiff(u, u, True, True), 'sum of squares')

    def masks(get=get, tr=tr, H=H, d=d):
      i, k = jv.fresh('i'), jv.fresh('k')
      rng = [i >= 0, i < tr.N, k >= 0, k < d, tr.dirichlet(i)]
      for name in ('Au', 'Bu', 'Cu', 'Dtp'):
        jv.prove_eq(get()[name].at(i, k), jv.Poly(), H + rng, f'{name} at Dirichlet nodes')

    def B_diag(get=get, tr=tr, u=u, eq=eq, msk=msk, d=d):
      eq(get()['Bu'], jv.Arr((tr.N, d), 'f', lambda i, k: (tr.ar['mass'].at(i, k) * u.at(i, k)).guard(msk(i))), 'mass operator')

    def B_form(get=get, tr=tr, u=u, v=v, eq=eq, I=I, d=d):
      (m, p_, k), b = fe.SUM(tr.Ez, tr.P, d)
      lhs = sm.scalar(jv.sum_over(b, get()['Bl'].at(m, p_, k) * tr.vloc(v, m, p_, k)))

      def at(m_, q):
        (kk,), bb = fe.SUM(d)
        return jv.sum_over(bb, tr.vloc(u, m_, q, kk) * tr.vloc(v, m_, q, kk))
      eq(lhs, sm.scalar(I(at)), 'local mass form')

    def Bi_id(get=get, tr=tr, uc=uc, eq=eq, d=d):
      # exchange(mass * u) = u * exchange(mass) for single-valued u; Bi divides by exchange(mass)
      ex = get()['exm']
      spec = jv.Arr((tr.N, d), 'f', lambda i, k: jv.recip(ex.at(i, k)) * (ex.at(i, k) * uc.at(tr.cls(jv.iz(i)), k)))
      jv.prove_arr_eq(get()['Bi'], spec, tr.hyps, 'Bi(M u) = (u S) / S')

    def C_weak(get=get, tr=tr, u=u, v=v, eq=eq, I=I, G=G, d=d):
      def at(m, q):
        (i, j), b = fe.SUM(d, d)
        return jv.sum_over(b, tr.oval(lambda a_, p_: tr.vloc(u, a_, p_, i), m, q) *
                           G(lambda a_, p_: tr.vloc(u, a_, p_, j), m, q, i, 'o') *
                           tr.oval(lambda a_, p_: tr.vloc(v, a_, p_, j, True), m, q))
      eq(sm.scalar(tr.dotv(lambda i, k: v.at(i, k), lambda i, k: get()['Cu'].at(i, k))), sm.scalar(I(at, 'o')), 'convection')

    def divform(x, masked, I=I, G=G, tr=tr, d=d, p=p):
      def at(m, q):
        (k,), b = fe.SUM(d)
        return jv.sum_over(b, G(lambda a_, p_: tr.vloc(x, a_, p_, k, masked), m, q, k)) * tr.pval(p, m, q)
      return sm.scalar(I(at))

    def D_weak(get=get, tr=tr, u=u, p=p, divform=divform, eq=eq):
      eq(sm.scalar(tr.dotp(lambda i: p.at(i), lambda i: get()['Du'].at(i))), divform(u, False), 'divergence')

    def Dt_weak(get=get, tr=tr, v=v, divform=divform, eq=eq):
      eq(sm.scalar(tr.dotv(lambda i, k: v.at(i, k), lambda i, k: get()['Dtp'].at(i, k))), divform(v, True), 'pressure gradient')

    def dual(get=get, tr=tr, v=v, p=p, eq=eq):
      eq(sm.scalar(tr.dotv(lambda i, k: v.at(i, k), lambda i, k: get()['Dtp'].at(i, k))),
         sm.scalar(tr.dotp(lambda i: p.at(i), lambda i: get()['Dmv'].at(i))), '<v, Dt p> = <D v, p>')

    def Bp_weak(get=get, tr=tr, p=p, eq=eq, I=I):
      r = jv.rarr('r', (tr.M,))
      eq(sm.scalar(tr.dotp(lambda i: r.at(i), lambda i: get()['Bp'].at(i))),
         sm.scalar(I(lambda m, q: tr.pval(p, m, q) * tr.pval(r, m, q))), 'pressure mass')

    def proj(get=get, tr=tr, p=p, eq=eq, I=I):
      one = jv.Arr((tr.M,), 'f', lambda i: jv.Poly.const(1))
      num = I(lambda m, q: tr.pval(p, m, q) * tr.pval(one, m, q))
      den = I(lambda m, q: tr.pval(one, m, q) * tr.pval(one, m, q))
      spec = jv.Arr((tr.M,), 'f', lambda i: p.at(i) - num * jv.recip(den))
      jv.prove_arr_eq(get()['proj'], spec, tr.hyps, 'projection')
    O = lambda n, f: chk.oblige(n + ' ' + t, f, 'jxvc+z3')
    O('A: <v, A u> = full-gradient form, all u, all v (v zero at Dirichlet nodes)', A_weak)
    O('A symmetric on masked fields', A_sym)
    O('A positive semi-definite (sum of squares)', A_psd)
    O('A, B, C, Dt vanish at Dirichlet nodes', masks)
    O('B: masked diagonal', B_diag)
    O('B_local: form of the velocity product', B_form)
    O('Bi of summed mass is the identity on single-valued fields', Bi_id)
    O('C: covector of (u . grad) u', C_weak)
    O('D: <q, D u> = integral of q div u', D_weak)
    O('Dt: <v, Dt p> = integral of p div v, v masked', Dt_weak)
    O('Dt is the transpose of D', dual)
    O('pressure mass form', Bp_weak)
    O('pressure projection removes the mean', proj)

    def wrong(get=get, tr=tr, u=u, v=v):
      jv.prove_arr_eq(sm.scalar(tr.dotv(lambda i, k: v.at(i, k), lambda i, k: get()['Au'].at(i, k))),
                      sm.scalar(tr.dotv(lambda i, k: u.at(i, k), lambda i, k: get()['Amv'].at(i, k))), tr.hyps, 'unmasked symmetry')
    chk.canary('A symmetric on unmasked fields' + t, wrong, 'jxvc+z3')
    if nv == 2:
      create_obls(chk, ndim, prims)
  chk.extra['primitives_interpreted'] = sorted(prims)


def create_obls(chk, ndim, prims):
  """StokesSEM.create with refine_premesh and FiniteElementSpace.create replaced by their contracts."""
  d = ndim
  box = {}
  order = 3
  tr = sm.SemTracer(ndim, nv=order + 1, npr=order - 1, no=order + 3) if ndim == 1 else sm.SemTracer(ndim)
  if ndim > 1:
    order = 1   # sizes are not unrolled by the proof; the stub meshes fix the element sizes
  mk = {m: z3.Function('in_' + m, z3.IntSort(), z3.BoolSort()) for m in ('m1', 'm2', 'm3')}
  for m in mk:
    tr.add(m, (tr.n,), 'i', arr=jv.Arr((tr.N,), 'i', lambda i, m=m: z3.If(mk[m](jv.iz(i)), z3.IntVal(1), z3.IntVal(0))))

  def get():
    if 'r' in box:
      return box['r']
    from swirl_fem.navier_stokes import navier_stokes as ns
    from swirl_fem.core.interpolation import NodeType
    D, N_ = ns.BCType.DIRICHLET, ns.BCType.NEUMANN

    def f(sem, a):
      vm = sem.velocity.mesh.replace(physical_masks={m: a[m] for m in mk})
      log = []

      class PM:
        order = 1
        def finalize(self): return ('geometry', None)

      class Ref:
        def __init__(self, g): self.g = g
        def finalize(self):
          if self.g.node_type == NodeType.GAUSS_LEGENDRE:
            log.append(('pressure', self.g.num_points)); return sem.pressure.pspace.mesh
          log.append(('velocity', self.g.num_points, self.g.node_type)); return vm

      class FES:
        @staticmethod
        def create(mesh, quadrature):
          log.append(('space', mesh is vm, quadrature.nodes.num_points, quadrature.nodes.node_type))
          if mesh is vm:
            nq = quadrature.nodes.num_points
            base = sem.velocity.vspace if not any(x[0] == 'v' for x in log) else sem.velocity.overint_space
            log.append(('v', nq))
            import dataclasses
            return dataclasses.replace(base, mesh=vm)
          return sem.pressure.pspace
      saved = ns.refine_premesh, ns.FiniteElementSpace, ns.np
      ns.refine_premesh = lambda pm, gridpoints_1d: Ref(gridpoints_1d)
      ns.FiniteElementSpace, ns.np = FES, NpProxy(np)
      try:
        bcs = dict(m1=(D, 0.), m2=(N_, 0.), m3=(D, 1.))
        s = ns.StokesSEM.create(PM(), bcs, order=box['order'])
        s0 = ns.dirichlet_bc(vm, {})
      finally:
        ns.refine_premesh, ns.FiniteElementSpace, ns.np = saved
      box['log'] = log
      import jax.numpy as jnp
      return dict(mass=s.velocity_mass_diag, qqt=s.velocity.diag_qqt, mask=s.velocity.interior_mask, mask0=jnp.asarray(s0))
    # order 2 makes pressure GL with one point etc.; the stub element sizes are those of the tracer
    box['order'] = 3
    box['r'] = tr.run_sem(f)
    prims.update(tr.prims)
    return box['r']
  t = f'[ndim {ndim}]'

  def mass():
    def spec(i, k):
      (m, p), b = fe.SUM(tr.Ez, tr.P)
      return jv.sum_over(b, (tr.ar['w'].at(p) * tr.ar['det'].at(m, p)).guard(tr.elv.at(m, p) == i))
    jv.prove_arr_eq(get()['mass'], jv.Arr((tr.N, d), 'f', spec), tr.hyps, 'velocity_mass_diag')

  def qqt():
    def spec(i):
      (m, p), b = fe.SUM(tr.Ez, tr.P)
      return jv.sum_over(b, jv.Poly.const(1).guard(tr.elv.at(m, p) == i))
    jv.prove_arr_eq(get()['qqt'], jv.Arr((tr.N,), 'f', spec), tr.hyps, 'diag_qqt')

  def mask():
    spec = jv.Arr((tr.N, 1), 'f', lambda i, k: jv.Poly.const(1).guard(z3.And(z3.Not(mk['m1'](jv.iz(i))), z3.Not(mk['m3'](jv.iz(i))))))
    jv.prove_arr_eq(get()['mask'], spec, tr.hyps, 'interior mask')
    jv.prove_arr_eq(get()['mask0'], jv.Arr((tr.N,), 'f', lambda i: jv.Poly.const(1)), tr.hyps, 'no boundary conditions')
  chk.oblige('create: mass diagonal is the summed weight times determinant ' + t, mass, 'jxvc+z3')
  chk.oblige('create: multiplicity counts the element slots of each node ' + t, qqt, 'jxvc+z3')
  chk.oblige('create: interior mask is zero exactly on the Dirichlet groups ' + t, mask, 'jxvc+z3')


# ----------------------------------------------------------------------------- runtime contracts
def contracts(chk):
  import jax.numpy as jnp
  from swirl_fem.navier_stokes import navier_stokes as ns
  D, Nm = ns.BCType.DIRICHLET, ns.BCType.NEUMANN
  rng = np.random.default_rng(chk.seed)
  cfg = [(2, 3, ()), (2, 2, (1,)), (1, 3, ()), (3, 2, (0,)), (2, 4, (0, 1)), (2, 3, (0,)), (3, 3, ())]
  for it in range(chk.n(6, 14)):
    ndim, order, per = cfg[it % len(cfg)]
    pm = sm.random_stokes_premesh(rng, ndim, per, n={1: 3, 2: 2, 3: 1 if not per else 2}[ndim])
    names = list(pm.physical_groups)
    types = [D, Nm, D] if it % 2 else [D, D]
    bcs = {k: (types[i % len(types)], float(rng.integers(0, 2))) for i, k in enumerate(names)}
    if it % 3 == 2:
      bcs = dict(list(bcs.items())[:1])
    inp = dict(ndim=ndim, order=order, periodic=per, node_coords=pm.node_coords, elements=pm.elements,
               groups=pm.physical_groups, bcs={k: a.value for k, (a, _) in bcs.items()})
    over = int(rng.integers(1, 4))
    made = {}

    def build():
      made['sem'] = ns.StokesSEM.create(pm, bcs, order=order, num_convection_overint_nodes=over)
    if not chk.case('create', build, inp):
      continue
    s = made['sem']
    o = sm.DenseStokes(pm, s, order, over)
    N, M = o.N, o.M
    bd = set()
    for k, (tp, _) in bcs.items():
      if tp == D:
        bd |= sm.group_nodes(pm, k, order, o.X)
    # periodic images of Dirichlet nodes are Dirichlet
    cls = {o.ids[i] for i in bd}
    m = np.array([[0. if o.ids[i] in cls else 1.] for i in range(N)])
    u, v = rng.uniform(-1, 1, (N, ndim)), rng.uniform(-1, 1, (N, ndim))
    p, q = rng.uniform(-1, 1, M), rng.uniform(-1, 1, M)

    def close(a, b, what, tol=1e-8):
      a, b = np.asarray(a), np.asarray(b)
      if a.shape != b.shape or not np.allclose(a, b, rtol=1e-7, atol=tol * (1 + np.abs(b).max())):
        return dict(what=what, got=a, want=b)
    J = jnp.asarray
    chk.case('mask', lambda: close(s.velocity.interior_mask, m, 'mask'), inp)
    chk.case('stiffness', lambda: close(s.A(J(u)), m * (o.K @ u), 'A'), dict(inp, u=u))
    chk.case('mass', lambda: close(s.B(J(u)), m * o.mass[:, None] * u, 'B'), dict(inp, u=u))
    chk.case('convection', lambda: close(s.C(J(u)), m * o.conv(u), 'C'), dict(inp, u=u))
    chk.case('divergence', lambda: close(s.D(J(u)), np.einsum('pak,ak->p', o.Dm, u), 'D'), dict(inp, u=u))
    chk.case('pressure gradient', lambda: close(s.Dt(J(p)), m * np.einsum('pak,p->ak', o.Dm, p), 'Dt'), dict(inp, p=p))
    chk.case('pressure mass', lambda: close(s.pressure.B(J(p)), o.MP @ p, 'pressure.B'), dict(inp, p=p))

    def inverse():
      sv = u[o.ids]
      return close(s.Bi(J(o.mass[:, None] * sv)), sv, 'Bi(mass u)', 1e-9)
    chk.case('inverse mass', inverse, dict(inp, u=u))
    chk.case('exchange', lambda: close(s.velocity.exchange(J(u)), o.exchange(u), 'exchange'), dict(inp, u=u))

    def mean():
      r = np.asarray(project(s, J(p)))
      want = p - (np.ones(M) @ o.MP @ p) / (np.ones(M) @ o.MP @ np.ones(M))
      return close(r, want, 'projection')
    chk.case('projection', mean, dict(inp, p=p))

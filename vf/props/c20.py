"""C20: one Stokes step solves the discrete momentum and incompressibility equations."""
NOTE = ('The real stokes_one_step (with the real Q and E) is traced over abstract velocity and pressure spaces; B, A, Bi, D, Dt, the '
        'exchange and the filter average are opaque linear operators (contracts C21, C02, C22), the two conjugate-gradient calls are '
        'replaced by the contract of cg (C13) and recorded, BDF weights are symbols (C19). Time orders 1-6 and pressure histories of '
        'length 1-3 are enumerated, since the code unrolls over its histories; everything else is symbolic.')
TECHNIQUE = ('caller checked against callee contracts: the jaxpr of the real step is interpreted over a vector space with opaque '
             'operators; back ends: rational-function normalisation (sympy) and a mask data-flow proof')

import numpy as np
from vf.core import Failed, Unsupported, locate
from vf import vecvc as vv

F = ['StokesSEM.stokes_one_step', 'StokesSEM.Q', 'StokesSEM.E']
MASKED_OPS = ('B', 'A', 'Dt')     # contract C21: these covectors vanish at Dirichlet nodes


class Step:

  def __init__(self, cfg):
    import jax, jax.numpy as jnp
    import sympy as sp
    from jax import export
    from jax.extend import core as jexc
    from swirl_fem.navier_stokes import navier_stokes as ns
    self.sp, self.cfg = sp, cfg
    n, m = export.symbolic_shape('n,m')
    U = jax.ShapeDtypeStruct((n, 2), jnp.float64)
    P = jax.ShapeDtypeStruct((m,), jnp.float64)
    sc = jax.ShapeDtypeStruct((), jnp.float64)
    k, self.nps = cfg['k'], cfg['ps']
    ops = {o: shaped_op(o, s) for o, s in (('B', 'v'), ('A', 'v'), ('Bi', 'v'), ('D', 'vp'), ('Dt', 'pv'), ('X', 'v'), ('G', 'v'), ('R', 'p'))}
    vshape, pshape = U, P

    class Vel:
      interior_mask = None

      def exchange(self, u):
        return ops['X'](u, U)

    class Sem(ns.StokesSEM):
      def B(self, u): return ops['B'](u, U)
      def A(self, u): return ops['A'](u, U)
      def Bi(self, u): return ops['Bi'](u, U)
      def D(self, u): return ops['D'](u, P)
      def Dt(self, p): return ops['Dt'](p, U)
      def filter(self, u, alpha=0.05): return (1 - alpha) * u + alpha * ops['G'](u, U)
    calls = []
    if 'vfcg' not in vv._prims:
      prim = jexc.Primitive('vfcg')
      prim.multiple_results = True
      from jax import core as jcore
      prim.def_abstract_eval(lambda b, ab, mb, tol, atol, call: [b, b.update(shape=()), b.update(shape=())])
      vv._prims['vfcg'] = prim
    prim = vv._prims['vfcg']

    def cg(A, b, x0=None, *, tol=1e-5, atol=0.0, maxiter=None, M=None, dot_fn=jnp.vdot):
      if x0 is not None or maxiter is not None or dot_fn is not jnp.vdot:
        raise Unsupported('cg called with a guess, an iteration limit or another inner product')
      calls.append(1)
      x, r, it = prim.bind(b, A(b), M(b) if M is not None else b, jnp.asarray(tol, jnp.float64), jnp.asarray(atol, jnp.float64),
                           call=len(calls))
      return x, {'residual': r, 'num_iterations': it}

    def step(us, ps, f, ub, mu, dt, alpha, beta, tol, atol):
      proj = locate(ns, '_pressure_project_out_nullspace', ('sem', 'p'))
      saved = ns.cg, ns.bdfk_coeffs, ns.extk_coeffs, getattr(ns, proj)
      ns.cg = cg

      def bdf(order):
        if int(order) != k:
          raise Failed(f'BDF weights of order {order} requested for time order {k}')
        a = np.empty(k + 1, object)
        for i in range(k + 1):
          a[i] = beta[i]
        return a

      def ext(k):
        if int(k) != 1:
          raise Failed(f'extrapolation of order {k}')
        return np.array([-1., 2.])
      ns.bdfk_coeffs, ns.extk_coeffs = bdf, ext
      setattr(ns, proj, lambda sem, p: ops['R'](p, P))
      try:
        sem = Sem(velocity=Vel(), pressure=None, velocity_mass_diag=None)
        kw = {}
        if cfg['ub']:
          kw['u_boundary'] = ub
        if cfg['pre'] == 'given':
          kw['pressure_preconditioner'] = lambda p: ops['R'](p, P)
        elif cfg['pre'] == 'none':
          kw['project_out_nullspace'] = False
        if cfg['alpha']:
          kw['alpha'] = alpha
        u, p, aux = sem.stokes_one_step(us=us, ps=ps, f=f, mu=mu, dt=dt, time_order=k, tol=tol, atol=atol, **kw)
      finally:
        ns.cg, ns.bdfk_coeffs, ns.extk_coeffs = saved[:3]
        setattr(ns, proj, saved[3])
      if set(aux) != {'u_star_info', 'dp_info'}:
        raise Failed(f'diagnostics {sorted(aux)}')
      a, b = aux['u_star_info'], aux['dp_info']
      return (u, p, a['residual'], a['num_iterations'], b['residual'], b['num_iterations'])
    self.closed = jax.make_jaxpr(step)([U] * k, [P] * self.nps, U, U, sc, sc, sc, [sc] * (k + 1), sc, sc)
    R = lambda s: sp.Symbol(s, real=True)
    self.mu, self.dt, self.alpha, self.tol, self.atol = map(R, ('mu', 'dt', 'alpha', 'tol', 'atol'))
    self.beta = [R(f'beta{i}') for i in range(k + 1)]
    if not cfg['alpha']:
      self.alpha = sp.Rational(1, 20)
    V = vv.vec
    self.us = [V(f'u{i}', 0) for i in range(k)]
    self.ps = [V(f'p{i}', 0) for i in range(self.nps)]
    self.f, self.ub = V('f', 0), V('ub', 0)

  def run(self, masked_f=True):
    S = vv.Sc
    it = StepInterp()
    outs = it.run(self.closed, *self.us, *self.ps, self.f, self.ub, S(self.mu), S(self.dt),
                  S(self.alpha if self.cfg['alpha'] else 0), *[S(b) for b in self.beta], S(self.tol), S(self.atol))
    return it, outs

  # ---- specification
  def op(self, o, x):
    return vv.Ve({((o,) + w, n): c for (w, n), c in x.t.items()}, 0)

  def lin(self, *cx):
    out = vv.Ve({}, 0)
    for c, x in cx:
      out = vv.vadd(out, vv.vscale(self.sp.sympify(c), x))
    return out

  def verify(self, wrong=None):
    sp, op, lin = self.sp, self.op, self.lin
    it, outs = self.run()
    cfg, k = self.cfg, self.cfg['k']
    if len(it.solves) != 2:
      raise Failed(f'{len(it.solves)} inner solves')
    s1, s2 = it.solves
    eq = lambda a, b, what: same(a, b, what)
    bk, dt, mu = self.beta[k], self.dt, self.mu
    H = lambda x: lin((bk / dt, op('B', x)), (mu, op('A', x)))
    g = vv.vec('g', 0)
    # 1. momentum: operator and right-hand side of the first solve
    eq(s1['matvec'](g), H(g), 'operator of the momentum solve')
    p_ext = lin((2, self.ps[-1]), (-1, self.ps[-2])) if self.nps > 1 else self.ps[-1]
    if wrong == 'ext':
      p_ext = self.ps[-1]
    bal = lin((1, self.f), (1, op('Dt', p_ext)), *[(-self.beta[j] / dt, op('B', self.us[j])) for j in range(k)])
    lhs = lin((1, s1['rhs'])) if not cfg['ub'] else lin((1, s1['rhs']), (1, H(self.ub)))
    eq(lhs, bal, 'momentum balance: (beta_k/dt) B u* + mu A u* + (1/dt) sum beta_j B u_j = f + Dt p_ext')
    for s, nm in ((s1, 'momentum'), (s2, 'pressure')):
      b = s['rhs']
      eq(s['A_b'], s['matvec'](b), f'{nm}: cg is given the operator of its system')
      eq(s['cg_b'], b, f'{nm}: cg is given the right-hand side of its system')
      if not vv.zero(s['tol'] - self.tol) or not vv.zero(s['atol'] - self.atol):
        raise Failed(f'{nm}: cg tolerances {s["tol"]}, {s["atol"]}')
    # Dirichlet values of u*: rhs, operator and preconditioner stay in the masked subspace
    masked = lambda x: all(w and w[0] in MASKED_OPS or n in ('f', 'z') and (not w or set(w) <= {'X'}) or
                           (w and w[0] == 'X' and masked_word(w, n)) for (w, n) in x.t)
    if not masked(s1['rhs']):
      raise Failed(f'right-hand side of the momentum solve does not vanish at Dirichlet nodes: {s1["rhs"]}'[:800])
    z = vv.vec('z', 0)     # an arbitrary field vanishing at Dirichlet nodes
    if not masked(s1['matvec'](z)) or not masked(s1['M_b']):
      raise Failed('operator or preconditioner of the momentum solve leaves the fields vanishing at Dirichlet nodes')
    # 2. tentative velocity, filtered
    w1, dp = s1['x'], s2['x']
    ustar = lin((1, w1), (1, self.ub)) if cfg['ub'] else w1
    al = self.alpha
    filt = lin((1 - al, ustar), (al, op('G', ustar)))
    # 3. pressure correction
    Q = lambda x: lin((dt / bk, op('Bi', x)))
    E = lambda q: op('D', Q(op('Dt', q)))
    eq(s2['matvec'](g), E(g), 'operator of the pressure solve D Q Dt')
    eq(s2['rhs'], lin((-1, op('D', filt))), 'right-hand side of the pressure solve')
    # 4. results
    u, p = outs[0], outs[1]
    eq(u, lin((1, filt), (1, Q(op('Dt', dp)))), 'new velocity = filtered u* + Q Dt dp')
    eq(p, lin((1, p_ext), (1, dp)), 'new pressure = extrapolation + dp')
    # discrete divergence: D u = D filt + E dp, and E dp = rhs2 by the exactness of the solve
    eq(lin((1, op('D', u)), (-1, E(dp)), (1, s2['rhs'])), vv.Ve({}, 0), 'D u = 0')
    # 5. diagnostics
    for o, name in zip(outs[2:], ('res1', 'it1', 'res2', 'it2')):
      want = dict(res1=s1['info'][0], it1=s1['info'][1], res2=s2['info'][0], it2=s2['info'][1])[name]
      if not isinstance(o, vv.Sc) or not vv.zero(o.e - want):
        raise Failed(f'diagnostic {name} is {o}')
    return dict(primitives=sorted(it.prims))


def masked_word(w, n):
  """X applied (any number of times) to a masked vector; masks are equal on identified nodes"""
  while w and w[0] == 'X':
    w = w[1:]
  return bool(w) and w[0] in MASKED_OPS or (not w and n in ('f', 'z'))


def same(a, b, what):
  if vv.uniform_zero(a):
    a = vv.Ve({}, 0)
  if not isinstance(a, vv.Ve):
    raise Failed(f'{what}: not a vector ({a})')
  d = vv.vadd(a, b, -1) if b.t else a
  if not vv.vec_zero(d):
    raise Failed(f'{what}: {a!r} != {b!r}'[:1800])


def shaped_op(name, kind):
  from jax.extend import core as jexc
  key = 'vfop1_' + name
  if key not in vv._prims:
    p = jexc.Primitive(key)
    p.def_abstract_eval(lambda x, shape, opname: x.update(shape=shape))
    vv._prims[key] = p
  return lambda x, out: vv._prims[key].bind(x, shape=tuple(out.shape), opname=name)


class StepInterp(vv.Interp):

  def __init__(self):
    super().__init__(vv.Space(1))
    self.solves = []
    self.pending = None

  def eval(self, jaxpr, consts, args):
    return super().eval(jaxpr, consts, args)

  def __getattr__(self, name):
    if name.startswith('p_vfop1_'):
      return lambda eqn, x: self.apply(eqn.params['opname'], [x if isinstance(x, vv.Ve) or vv.uniform_zero(x) else x])[0]
    raise AttributeError(name)

  def p_vfcg(self, eqn, b, ab, mb, tol, atol):
    import sympy as sp
    c = len(self.solves) + 1
    rec = dict(cg_b=b, A_b=ab, M_b=mb, tol=tol.e, atol=atol.e, x=vv.vec(f'sol{c}', 0),
               info=(sp.Symbol(f'res{c}'), sp.Symbol(f'its{c}')))
    if self.pending is not None:
      raise Unsupported('two cg calls in one solve')
    self.pending = rec
    return [rec['x'], vv.Sc(rec['info'][0]), vv.Sc(rec['info'][1])]

  def p_custom_linear_solve(self, eqn, *ins):
    p = eqn.params
    cl, jx = p['const_lengths'], p['jaxprs']
    lens = [cl.matvec, cl.vecmat, cl.solve, cl.transpose_solve]
    parts, o = [], 0
    for n in lens:
      parts.append(list(ins[o:o + n])); o += n
    b = list(ins[o:])
    if len(b) != 1:
      raise Unsupported('system with several unknown arrays')
    mv = lambda x: self.run(jx.matvec, *parts[0], x)[0]
    self.pending = None
    outs = self.run(jx.solve, *parts[2], *b)
    rec = self.pending
    self.pending = None
    if rec is None:
      raise Failed('inner solve without cg')
    rec.update(matvec=mv, rhs=b[0])
    same(outs[0], rec['x'], 'solution of the inner solve')
    self.solves.append(rec)
    return outs


CONFIGS = ([dict(k=k, ps=min(k, 3), ub=1, pre='project', alpha=1) for k in range(1, 7)] +
           [dict(k=2, ps=2, ub=0, pre='none', alpha=1), dict(k=3, ps=3, ub=0, pre='given', alpha=0),
            dict(k=2, ps=1, ub=0, pre='project', alpha=1), dict(k=1, ps=2, ub=1, pre='given', alpha=1)])


def prove(chk):
  chk.assume('machine arithmetic treated as exact real arithmetic', 'inner solves are exact (as the property states); cg contract C13',
             'time orders 1-6, pressure histories of 1-3 fields',
             'precondition: the forcing covector vanishes at Dirichlet nodes',
             'contracts of callees: B, A, Dt vanish at Dirichlet nodes (C21); exchange preserves that, masks being equal on '
             'identified nodes (C21 create, C02); filter = (1-alpha) u + alpha G u (C22); BDF and extrapolation weights (C19)',
             'frame of cg: iterates stay in every subspace containing b that the operator and preconditioner preserve (C13: the '
             'carried vectors are combinations of operator words applied to b)')
  chk.trust('jax.make_jaxpr, lax.custom_linear_solve (primal)', 'vf/vecvc.py', 'sympy')
  for cfg in CONFIGS:
    chk.oblige('stokes_one_step[' + ','.join(f'{a}={b}' for a, b in cfg.items()) + ']', lambda cfg=cfg: Step(cfg).verify(), 'sympy', F)
  chk.canary('constant extrapolation with two pressures is refuted', lambda: Step(CONFIGS[1]).verify('ext'))


# ---------------------------------------------------------------------- runtime contracts
def contracts(chk):
  import jax, jax.numpy as jnp
  from swirl_fem.navier_stokes import navier_stokes as ns
  from swirl_fem.navier_stokes.navier_stokes import BCType
  from vf import sem as sm
  from vf.props.c19 import solve as exact
  rng = np.random.default_rng(chk.seed)
  cases = [dict(ndim=2, periodic=(), order=3, k=2, ps=2, ub=True, alpha=.3, dirichlet='ab'),
           dict(ndim=2, periodic=(0,), order=3, k=3, ps=3, ub=False, alpha=0., dirichlet='a'),
           dict(ndim=2, periodic=(0, 1), order=3, k=1, ps=1, ub=False, alpha=.05, dirichlet=''),
           # higher time orders, boundary fields that do not vanish inside, boundary values that the filter changes
           dict(ndim=2, periodic=(), order=3, k=4, ps=3, ub=True, inside=True, curved=True, alpha=.4, dirichlet='a'),
           dict(ndim=2, periodic=(), order=4, k=5, ps=2, ub=True, inside=True, alpha=0., dirichlet='ab'),
           dict(ndim=2, periodic=(1,), order=3, k=6, ps=4, ub=False, alpha=1., dirichlet='a')]
  if chk.thorough:
    cases += [dict(ndim=2, periodic=(), order=4, k=3, ps=3, ub=True, alpha=.1, dirichlet='a'),
              dict(ndim=2, periodic=(1,), order=2, k=2, ps=1, ub=True, alpha=0., dirichlet='ab')]
  for c in cases:
    pm = sm.random_stokes_premesh(rng, c['ndim'], c['periodic'], n=2)
    names = [g for g in pm.physical_groups if g in ('a', 'b') and g in c['dirichlet']]
    bc = {g: (BCType.DIRICHLET, 0.) for g in names}

    def case():
      order, k, nd = c['order'], c['k'], c['ndim']
      closed = c['dirichlet'] == 'ab' or len(c['periodic']) == c['ndim']     # pressure defined up to a constant
      sem = ns.StokesSEM.create(pm, bc, order)
      o = sm.DenseStokes(pm, sem, order)
      N, M = o.N, o.M
      mask = np.ones((N, 1))
      for g in names:
        for i in sm.group_nodes(pm, g, order, o.X):
          mask[i] = 0
      bdn = {o.ids[i] for i in range(N) if mask[i, 0] == 0}
      mask = np.array([[0. if o.ids[i] in bdn else 1.] for i in range(N)])
      sv = lambda x: o.exchange(x * 1.) / o.exchange(np.ones_like(x))
      us = [sv(rng.standard_normal((N, nd))) for _ in range(k)]
      ps = [rng.standard_normal(M) for _ in range(c['ps'])]
      mu, dt = .37, .21
      f = mask * rng.standard_normal((N, nd))
      f = f * 1.0
      A0 = rng.standard_normal((nd, nd))
      A0 -= np.trace(A0) / nd * np.eye(nd)                # divergence-free boundary data: no net flux
      ub = (o.X @ A0.T + rng.standard_normal(nd)) if c['ub'] and names else None
      if c.get('curved'):
        ub = ub + rng.standard_normal((N, nd))
        ub = sv(ub)
      if ub is not None and not c.get('inside'):
        ub = ub * (1 - mask)
      # the velocity residual is carried unassembled, so its attainable accuracy is sqrt(machine epsilon): stay above it
      u, p, aux = sem.stokes_one_step([jnp.asarray(x) for x in us], [jnp.asarray(x) for x in ps], jnp.asarray(f), mu, dt, k,
                                      alpha=c['alpha'], u_boundary=None if ub is None else jnp.asarray(ub),
                                      project_out_nullspace=closed, tol=1e-7)
      u, p = np.asarray(u), np.asarray(p)
      beta = [float(x) for x in exact(k, lambda d: 1 if d == 1 else 0)]
      pe = 2 * ps[-1] - ps[-2] if len(ps) > 1 else ps[-1]
      # global (class-summed) system on the free classes
      cls = sorted(set(o.ids)); ix = {q: a for a, q in enumerate(cls)}
      Z = np.zeros((N, len(cls)))
      for i, q in enumerate(o.ids):
        Z[i, ix[q]] = 1
      free = [a for a, q in enumerate(cls) if q not in bdn]
      DtP = lambda q: np.einsum('pak,p->ak', o.Dm, q)
      H = beta[k] / dt * np.diag(o.mass) + mu * o.K
      ust = np.zeros((N, nd))
      for d in range(nd):
        rhs = f[:, d] + DtP(pe)[:, d] - o.mass * sum(b * x[:, d] for b, x in zip(beta[:k], us)) / dt
        base = ub[:, d] * (1 - mask[:, 0]) if ub is not None else np.zeros(N)
        A = Z.T @ H @ Z
        r = Z.T @ (rhs - H @ base)
        w = np.zeros(len(cls)); w[free] = np.linalg.solve(A[np.ix_(free, free)], r[free])
        ust[:, d] = Z @ w + base
      fl = np.asarray(sem.filter(jnp.asarray(ust), alpha=c['alpha']))
      # pressure correction: D Q Dt dp = -D fl (least squares: constant nullspace)
      mexc = o.exchange(o.mass)
      BiDt = lambda q: mask * o.exchange(mask * DtP(q)) / mexc[:, None]
      Dv = lambda v: np.einsum('pak,ak->p', o.Dm, v)
      E = np.stack([dt / beta[k] * Dv(BiDt(e)) for e in np.eye(M)], 1)
      sc = np.abs(fl).max() + 1
      dv = Dv(u)
      tolv = 5e-5 * sc
      if not np.isfinite(u).all() or not np.isfinite(p).all():
        return dict(not_finite=True, aux=aux)
      dp = p - pe
      comp = Dv(fl)
      if np.abs(dv).max() > tolv:
        return dict(divergence=np.abs(dv).max(), scale=sc, aux=aux)
      if np.abs(E @ dp + comp).max() > tolv:
        return dict(pressure_equation=np.abs(E @ dp + comp).max())
      want = fl + dt / beta[k] * BiDt(dp)
      if np.abs(u - want).max() > tolv:
        return dict(velocity_error=np.abs(u - want).max(), config=c)
      ri, ni = float(aux['u_star_info']['residual']), int(aux['u_star_info']['num_iterations'])
      if ni <= 0 or not np.isfinite(ri):
        return dict(aux=aux)
    chk.case('stokes step', case, c)

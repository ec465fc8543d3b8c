"""C13: conjugate gradients - exact steps, true residual, honest stopping report."""
NOTE = ('The real cg is traced with opaque linear operators, an opaque inner product and vectors of symbolic length '
        '(one and several leaves), and the while loop is proved by an inductive invariant over the vector space '
        '(r = b - A x, gamma = <r,Mr>, <p,r> = gamma, <Mr,Ap> = <p,Ap>); the stopping test is a z3 obligation. '
        'Roles of the loop-carried values are inferred from the code on every run.')
TECHNIQUE = ('inductive loop invariant over an abstract inner-product space, generated from the jaxpr of the real cg; '
             'back ends: rational-function normalisation (sympy) and z3')

import itertools
import numpy as np
from vf.core import Failed, Unsupported
from vf import vecvc as vv

F = ['linalg.cg.cg', 'linalg.cg._vdot', 'cg.cond_fun', 'cg.body_fun']


def trace(cfg):
  """jaxpr of the real cg for one calling form"""
  import jax, jax.numpy as jnp
  from jax import export
  from swirl_fem.linalg.cg import cg
  n, m = export.symbolic_shape('n,m')
  S = jax.ShapeDtypeStruct
  A, M, dot = vv.opaque_op('A'), vv.opaque_op('M'), vv.opaque_dot()
  b = S((n, 2), jnp.float64) if cfg['leaves'] == 1 else dict(p=S((m,), jnp.float64), u=S((n, 2), jnp.float64))
  sc = S((), jnp.float64)

  def call(b, x0, tol, atol, maxiter):
    kw = {}
    if cfg['x0']:
      kw['x0'] = x0
    if cfg['limits']:
      kw.update(tol=tol, atol=atol, maxiter=maxiter)
    if cfg['M']:
      kw['M'] = M
    if cfg['dot']:
      kw['dot_fn'] = dot
    x, info = cg(A, b, **kw)
    return x, info['residual'], info['num_iterations']
  closed = jax.make_jaxpr(call)(b, b, sc, sc, S((), jnp.int32))
  return closed, cfg['leaves']


class Analysis:

  def __init__(self, cfg):
    import sympy as sp
    self.sp = sp
    self.cfg = cfg
    self.closed, self.nl = trace(cfg)
    self.Mw = ('M',) if cfg['M'] else ()
    self.tol, self.atol = sp.Symbol('tol', real=True), sp.Symbol('atol', real=True)
    self.maxiter = sp.Symbol('maxiter', integer=True)
    self.whiles = []

  # inputs of the call; b is given as r + A x inside the loop (ghost r := b - A x)
  def inputs(self, space, b):
    x0 = [vv.vec('x0', i) for i in range(self.nl)]
    return b + x0 + [vv.Sc(self.tol), vv.Sc(self.atol), vv.Sc(self.maxiter)]

  def run(self, space, b, on_while):
    it = vv.Interp(space, on_while)
    return it, it.run(self.closed, *self.inputs(space, b))

  def blocks(self, init):
    """partition of the carried values: vector blocks of nl leaves, scalars"""
    out, j = [], 0
    avals = self.carry_avals
    while j < len(avals):
      if len(avals[j].shape):
        out.append(('v', list(range(j, j + self.nl))))
        j += self.nl
      else:
        out.append(('k' if avals[j].dtype.kind in 'iu' else 's', [j]))
        j += 1
    return out

  def solve(self):
    """finds roles for the carried values for which the invariant is inductive"""
    sp = self.sp
    nl = self.nl
    # ---- establishment
    space = vv.Space(nl)
    seen = {}

    def on_while(it, eqn, cj, cc, bj, bc, init):
      if seen:
        raise Unsupported('two loops')
      self.carry_avals = [v.aval for v in eqn.outvars]
      seen.update(init=init, cc=cc, bc=bc, cj=cj, bj=bj)
      return [vv.Sc(sp.Symbol(f'out{j}')) if not len(v.aval.shape) else vv.vec(f'out{j}', 0)
              for j, v in enumerate(eqn.outvars)]
    b = [vv.vec('b', i) for i in range(nl)]
    self.run(space, b, on_while)
    if not seen:
      raise Unsupported('no loop')
    bl = self.blocks(seen['init'])
    x0 = [vv.vec('x0', i) if self.cfg['x0'] else vv.Ve({}, i) for i in range(nl)]
    A = lambda v: [vv.Ve({(('A',) + w, n): c for (w, n), c in l.t.items()}, l.leaf) for l in v]
    Mo = lambda v: [vv.Ve({(self.Mw + w, n): c for (w, n), c in l.t.items()}, l.leaf) for l in v]
    r0 = [vv.vadd(u, w, -1) for u, w in zip(b, A(x0))]
    vals = dict(X=x0, R=r0, P=Mo(r0), Z=Mo(r0), B=b)
    scal = dict(gamma=space.dot(r0[0], Mo(r0)[0]), bb=space.dot(b[0], b[0]), k=sp.Integer(0))

    def same(u, w):
      """leaf-wise equality of vectors (zero constants are zero vectors)"""
      for a, c in zip(u, w):
        a = vv.Ve({}, c.leaf) if vv.uniform_zero(a) else a
        if not isinstance(a, vv.Ve) or not vv.vec_zero(vv.vadd(a, c, -1)):
          return False
      return True
    cands, why = [], []
    for kind, js in bl:
      init = [seen['init'][j] for j in js]
      if kind == 'v':
        cands.append([r for r, v in vals.items() if same(init, v)])
      elif kind == 'k':
        cands.append(['k'] if vv.zero(init[0].e) else [])
      else:
        cands.append([r for r in ('gamma', 'bb') if vv.zero(init[0].e - scal[r])])
      if not cands[-1]:
        why.append(f'initial value of carried {kind} {js}: {init}')
    if why:
      raise Failed('the loop is not entered with the required initial state: ' + '; '.join(why)[:1500])
    best = None
    for roles in itertools.product(*cands):
      try:
        return self.check(bl, roles, seen)
      except Failed as e:
        if best is None or len(str(e)) < len(str(best)):
          best = e
    raise best

  def check(self, bl, roles, seen0):
    """preservation, step contract, stopping test and result for one role assignment"""
    sp, nl, Mw = self.sp, self.nl, self.Mw
    space = vv.Space(nl)
    g, d, k = sp.Symbol('gamma', real=True), sp.Symbol('pAp', real=True), sp.Symbol('k', integer=True)
    bb = sp.Symbol('bb', real=True)
    space.hyp = {vv.canon('p', (), 'r'): g, vv.canon('r', Mw, 'r'): g,
                 vv.canon('p', ('A',), 'p'): d, vv.canon('r', Mw + ('A',), 'p'): d,
                 vv.canon('r', ('A',) + Mw[::-1], 'p'): space.total('r', ('A',) + Mw[::-1], 'p')}
    space.hyp = {q: v for q, v in space.hyp.items() if q != vv.canon('r', ('A',) + Mw[::-1], 'p') or not Mw}
    space.hyp[vv.canon('r', Mw + ('A',), 'p')] = d
    V = lambda name, w=(): [vv.vec(name, i, w) for i in range(nl)]
    X, R, P = V('x'), V('r'), V('p')
    B = [vv.vadd(u, w) for u, w in zip(R, V('x', ('A',)))]
    state = dict(X=X, R=R, P=P, Z=V('r', Mw), B=B)
    scal = dict(gamma=g, bb=space.dot(B[0], B[0]), k=k)
    res = {}
    self_ = self

    def on_while(it, eqn, cj, cc, bj, bc, init):
      carry = [None] * len(init)
      for (kind, js), role in zip(bl, roles):
        if kind == 'v':
          for i, j in enumerate(js):
            carry[j] = state[role][i]
        else:
          carry[js[0]] = vv.Sc(scal[role])
      res['next'] = it.run(bj, *bc, *carry)
      res['cond'] = it.run(cj, *cc, *carry)[0]
      return carry          # the state in which the loop stops
    it, outs = self.run(space, B, on_while)
    # ---- preservation
    new = {}
    for (kind, js), role in zip(bl, roles):
      v = [res['next'][j] for j in js]
      if role in new and kind == 'v':
        for a, c in zip(new[role], v):
          if not vv.vec_zero(vv.vadd(a, c, -1)):
            raise Failed(f'two copies of {role} diverge')
      new[role] = v

    def eqv(a, c, what):
      for u, w in zip(a, c):
        if vv.uniform_zero(u):
          u = vv.Ve({}, w.leaf)
        if not isinstance(u, vv.Ve) or not vv.vec_zero(vv.vadd(u, w, -1)):
          raise Failed(f'{what}: {u!r} != {w!r}'[:1500])

    def eqs(a, c, what):
      if not vv.zero(a - c):
        raise Failed(f'{what}: {sp.simplify(a)} != {sp.simplify(c)}'[:1500])
    Aop = lambda v: [vv.Ve({(('A',) + w, n): c for (w, n), c in l.t.items()}, l.leaf) for l in v]
    Mop = lambda v: [vv.Ve({(Mw + w, n): c for (w, n), c in l.t.items()}, l.leaf) for l in v]
    for need in ('X', 'P'):
      if need not in new:
        raise Failed(f'no carried value plays the role {need}')
    X1, P1 = new['X'], new['P']
    R1 = [vv.vadd(u, w, -1) for u, w in zip(B, Aop(X1))]          # the true residual
    # step contract
    alpha = g / d
    eqv(X1, [vv.vadd(u, vv.vscale(alpha, w)) for u, w in zip(X, P)], 'x + (gamma/<p,Ap>) p')
    eqs(space.dot(R1[0], P[0]), sp.Integer(0), 'step length minimises along p: <r_new, p> = 0')
    Z1 = Mop(R1)
    diff = [vv.vadd(u, w, -1) for u, w in zip(P1, Z1)]
    if any(q != ((), 'p') for l in diff for q in l.t):
      raise Failed(f'the new direction is not M r_new plus a multiple of p: {diff}'[:1500])
    eqs(space.dot(P1[0], vv.Ve({(('A',), 'p'): sp.Integer(1)}, 0)), sp.Integer(0), 'new direction conjugate: <p_new, A p> = 0')
    # invariants
    if 'R' in new:
      eqv(new['R'], R1, 'carried residual is b - A x')
    if 'Z' in new:
      eqv(new['Z'], Z1, 'carried M r')
    if 'B' in new:
      eqv(new['B'], B, 'carried b')
    g1 = space.dot(R1[0], Z1[0])
    if 'gamma' in new:
      eqs(new['gamma'][0].e, g1, 'carried gamma is <r, M r>')
    eqs(space.dot(P1[0], R1[0]), g1, 'invariant <p,r> = gamma')
    AP1 = Aop(P1)
    eqs(space.dot(Z1[0], AP1[0]), space.dot(P1[0], AP1[0]), 'invariant <Mr,Ap> = <p,Ap>')
    if 'bb' in new:
      eqs(new['bb'][0].e, scal['bb'], 'carried <b,b>')
    if 'k' not in new:
      raise Failed('no carried iteration count')
    eqs(new['k'][0].e, k + 1, 'iteration count')
    # ---- result = state at the stop
    eqv(outs[:nl], X, 'returned solution is the current iterate')
    eqs(outs[nl].e, g, 'reported residual is <r, M r> of the returned solution')
    eqs(outs[nl + 1].e, k, 'reported iteration count')
    # ---- stopping test
    self.stopping(space, res['cond'], g, k, scal['bb'])
    self.roles = roles
    return dict(roles=[str(r) for r in roles], primitives=sorted(it.prims))

  def stopping(self, space, cond, g, k, bb):
    import z3
    sp = self.sp
    env = {}
    c = vv.to_z3(cond.f, env)
    if self.cfg['limits']:
      T = vv.to_z3(('lt', sp.Function('MAX')(self.tol ** 2 * bb, self.atol ** 2), g), env)
      K = vv.to_z3(('lt', k, self.maxiter), env)
      goal = c == z3.And(T, K)
    else:
      # default limits: iterate only while the residual is above some threshold fixed by b,
      # and the decision is a threshold test times a count test
      g2 = sp.Symbol('gamma2', real=True)
      c2 = z3.substitute(c, (env[g], env.setdefault(g2, z3.Real('gamma2'))))
      k0, k2 = env[k], z3.Real('k2')
      c3 = z3.substitute(c, (k0, k2))
      goal = z3.And(z3.Implies(z3.And(c, env[g2] >= env[g]), c2),      # monotone in gamma
                    z3.Implies(z3.And(c, k2 <= k0), c3),               # monotone in k
                    z3.Implies(c, env[g] > 0))
      tb = vv.to_z3(('le', 0, sp.expand(bb)), env)
    s = z3.Solver()
    s.set('timeout', 20000)
    if not self.cfg['limits']:
      s.add(tb)
      s.add(*[v >= 1 for q, v in env.items() if str(q).startswith('dim(')])
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.sat:
      m = s.model()
      raise Failed(f'stopping test differs from gamma > max(tol^2 <b,b>, atol^2) and k < maxiter; '
                   f'counterexample {m}'[:1500], model=str(m))
    if r != z3.unsat:
      raise Unsupported('stopping test: z3 unknown')


CONFIGS = [dict(leaves=l, x0=x, M=m, dot=d, limits=t)
           for l, x, m, d, t in ((1, 1, 1, 1, 1), (2, 1, 1, 1, 1), (1, 0, 0, 0, 0), (2, 0, 1, 0, 1),
                                 (1, 1, 0, 1, 1), (2, 1, 0, 0, 1), (1, 0, 1, 0, 1))]


def prove(chk):
  chk.assume('machine arithmetic treated as exact real arithmetic; the divisions by <p,Ap> and gamma are by nonzero '
             'numbers (A and M positive definite, residual above the threshold)',
             'precondition of cg: A and M are linear and self-adjoint for the supplied inner product, which is a '
             'symmetric bilinear form')
  chk.trust('jax.make_jaxpr and lax.while_loop semantics', 'vf/vecvc.py', 'sympy rational normalisation', 'z3')
  for cfg in CONFIGS:
    name = 'cg[' + ','.join(f'{k}={v}' for k, v in cfg.items()) + ']'
    chk.oblige(name + '.loop invariant, CG step, stopping test, result', lambda cfg=cfg: Analysis(cfg).solve(),
               'sympy+z3', F)

  def zero_iterations():
    # cond is false at k = 0 when maxiter <= 0: the returned solution is then the carried x at entry
    import z3
    cfg = CONFIGS[0]
    a = Analysis(cfg)
    a.solve()
    space = vv.Space(a.nl)
    box = {}

    def on_while(it, eqn, cj, cc, bj, bc, init):
      box['c'] = it.run(cj, *cc, *init)[0]
      return init
    b = [vv.vec('b', i) for i in range(a.nl)]
    _, outs = a.run(space, b, on_while)
    env = {}
    s = z3.Solver()
    s.add(vv.to_z3(box['c'].f, env))
    s.add(env[a.maxiter] <= 0)
    if s.check() != z3.unsat:
      raise Failed('the loop is entered although the iteration limit is zero')
    if not vv.vec_zero(vv.vadd(outs[0], vv.vec('x0', 0), -1)):
      raise Failed('zero iterations do not return the initial guess')
  chk.oblige('cg.zero iterations return the guess', zero_iterations, 'z3', F)

  def canary():
    a = Analysis(CONFIGS[0])
    a.cfg = dict(a.cfg)
    a.tol, a.atol = a.atol, a.tol        # wrong specification: tolerances swapped in the goal only
    closed = a.closed
    orig = a.inputs
    a.inputs = lambda space, b: b + [vv.vec('x0', i) for i in range(a.nl)] + [vv.Sc(a.atol), vv.Sc(a.tol), vv.Sc(a.maxiter)]
    a.solve()
  chk.canary('swapped tolerances are refuted', canary)


# ---------------------------------------------------------------------- runtime contracts
def contracts(chk):
  import jax, jax.numpy as jnp
  from swirl_fem.linalg.cg import cg
  rng = np.random.default_rng(chk.seed)

  def reference(A, b, x0, tol, atol, maxiter, M, W):
    dot = lambda a, c: float(a @ (W * c))
    x = x0.copy(); r = b - A @ x; z = M @ r; p = z.copy(); g = dot(r, z); k = 0
    T = max(tol ** 2 * dot(b, b), atol ** 2)
    hist = [g]
    while g > T and k < maxiter:
      Ap = A @ p; al = g / dot(p, Ap)
      x = x + al * p; r = r - al * Ap; z = M @ r; g2 = dot(r, z); p = z + g2 / g * p; g = g2; k += 1
      hist.append(g)
    return x, g, k, T, hist

  for t in range(chk.n(8, 60)):
    n = 6
    G = rng.standard_normal((n, n)); W = rng.uniform(.5, 2, n)
    S = G @ G.T + n * np.eye(n) * rng.uniform(.05, 1)
    H = rng.standard_normal((n, n)); Ms = H @ H.T + n * np.eye(n)
    A = S / W[:, None]; M = Ms / W[:, None] if t % 3 else np.eye(n)        # self-adjoint wrt W
    b = rng.standard_normal(n); x0 = rng.standard_normal(n) * (t % 2)
    tol = [1e-2, 1e-6, 0.5, 1e-12][t % 4]; atol = [0., 1e-1, 0.][t % 3]
    maxiter = int([0, 1, 2, 3, 5, 50][rng.integers(6)])
    split = lambda v: dict(u=v[:4].reshape(2, 2), p=v[4:])
    join = lambda q: jnp.concatenate([q['u'].ravel(), q['p']])
    Wt = split(W)

    def case():
      A_ = lambda q: split(A @ join(q)); M_ = lambda q: split(M @ join(q))
      # leaf-wise weighted inner product: scale through a closure on the leaf shape
      dot = lambda a, c: jnp.sum(a * c * (Wt['u'] if a.ndim == 2 else Wt['p']))
      x, info = cg(A_, split(b), x0=split(x0) if t % 2 else None, tol=tol, atol=atol, maxiter=maxiter,
                   M=M_ if t % 3 else None, dot_fn=dot)
      x = np.asarray(join(x)); res = float(info['residual']); k = int(info['num_iterations'])
      r = b - A @ x
      true = float(r @ (W * (M @ r)))
      xr, g, kr, T, hist = reference(A, b, x0, tol, atol, maxiter, M, W)
      scale = abs(hist[0]) + 1e-30
      if abs(res - true) > 1e-8 * scale:
        return dict(reported=res, true=true)
      if not (res <= T * (1 + 1e-6) + 1e-12 * scale or k == maxiter):
        return dict(stopped_early=k, residual=res, threshold=T)
      if k > maxiter:
        return dict(k=k, maxiter=maxiter)
      near = any(abs(h - T) <= 1e-6 * T + 1e-13 * scale for h in hist)
      if not near and T > 1e-12 * scale:
        if k != kr:
          return dict(iterations=k, expected=kr)
        if np.abs(x - xr).max() > 1e-7 * (1 + np.abs(xr).max()):
          return dict(x=x, expected=xr)
      elif k <= 3 and k == kr and np.abs(x - xr).max() > 1e-7 * (1 + np.abs(xr).max()):
        return dict(x=x, expected=xr)
    chk.case('cg', case, dict(n=n, tol=tol, atol=atol, maxiter=maxiter, A=A, M=M, b=b, x0=x0, W=W, t=t))
  # a guess far from the solution: the threshold is relative to b (and 0 when b is 0), never to the guess
  for t in range(chk.n(6, 40)):
    n = int(rng.integers(2, 12))
    A = np.diag(np.linspace(1., 3., n)) if t % 2 else np.diag(10. ** rng.uniform(-1, 1, n))
    b = rng.standard_normal(n) * 10. ** rng.integers(-3, 4)
    x0 = rng.standard_normal(n) * 10. ** rng.integers(0, 7)
    tol = [1e-4, 1e-2, 1e-1][t % 3]

    def far():
      x, info = cg(lambda v: A @ v, jnp.asarray(b), x0=jnp.asarray(x0), tol=tol, maxiter=200)
      r = b - A @ np.asarray(x)
      floor = (1e-14 * np.abs(x0).max() * np.abs(A).max() * n) ** 2         # attainable accuracy
      if not (float(r @ r) <= tol ** 2 * float(b @ b) * (1 + 1e-6) + 1e4 * floor or int(info['num_iterations']) == 200):
        return dict(stopped_early=int(info['num_iterations']), residual=float(r @ r), threshold=tol ** 2 * float(b @ b))
    chk.case('guess far away', far, dict(A=np.diag(A), b=b, x0=x0, tol=tol))
  # stopping exactly at the threshold: a zero right-hand side, and an exact initial guess
  def zero():
    A = np.diag([1., 2., 4.])
    for b, x0, kw in ((np.zeros(3), None, {}), (np.array([1., 2., 4.]), np.ones(3), {}), (np.zeros(3), None, dict(tol=0.)),
                      (np.array([2., 0., 0.]), None, dict(tol=1., maxiter=7)), (np.array([3., 0., 0.]), None, dict(tol=0., atol=3., maxiter=7))):
      x, info = cg(lambda v: A @ v, jnp.asarray(b), x0=None if x0 is None else jnp.asarray(x0), **kw)
      want = np.zeros(3) if x0 is None else x0
      if int(info['num_iterations']) != 0 or not np.array_equal(np.asarray(x), want):
        return dict(b=b, x0=x0, kw=kw, x=x, info=info)
  chk.case('already at the threshold', zero, 'residual equal to the threshold: no iteration')
  # preconditioners and operators of extreme scale: the residual is reported relative to itself, whatever its size
  def scales(s, a, maxiter):
    def f():
      G = np.random.default_rng(3).standard_normal((4, 4))
      A = (G @ G.T + 4 * np.eye(4)) * a
      b = np.array([1., -1., 2., .5])
      for M in (None, lambda r: s * r):
        x, info = cg(lambda v: A @ v, jnp.asarray(b), M=M, maxiter=maxiter, tol=0., atol=0.)
        r = b - A @ np.asarray(x)
        want = (s if M else 1.) * float(r @ r)
        if int(info['num_iterations']) != maxiter or not abs(float(info['residual']) - want) <= 1e-5 * want:
          return dict(residual=float(info['residual']), true=want, iterations=int(info['num_iterations']), preconditioned=M is not None)
    return f
  for s in (1e-40, 1e-12, 1., 1e12, 1e40):
    for a, it in ((1., 1), (1e-20, 2), (1e20, 0)):
      chk.case('extreme scales', scales(s, a, it), dict(preconditioner_scale=s, operator_scale=a, maxiter=it))
  # default arguments on a plain array
  def plain():
    n = 5
    G = rng.standard_normal((n, n)); A = G @ G.T + n * np.eye(n); b = rng.standard_normal(n)
    x, info = cg(lambda v: A @ v, jnp.asarray(b))
    r = b - A @ np.asarray(x)
    if abs(float(info['residual']) - r @ r) > 1e-9 * (b @ b):
      return dict(residual=info['residual'], true=r @ r)
    if r @ r > 1e-10 * (b @ b) * 1.01:
      return dict(not_converged=r @ r, iterations=info['num_iterations'])
  chk.case('defaults', plain, 'cg(A, b)')

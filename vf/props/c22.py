"""C22: stabilisation filter and vorticity - consistent, single-valued nodal fields."""
NOTE = ('Proof over the reals for arbitrary meshes, node identifications, geometry and fields (symbolic sizes): filter (ndim 1-3) and '
        'vorticity (ndim 2) are traced from the real methods, with the two interpolators replaced by free matrices (contract C08) and '
        'exchange by the class sum (C02). That low-degree polynomials pass unchanged and that facet values of the filtered field '
        'depend on the facet alone is proved from the 1-D interpolation matrices, which are checked for 2 to 14 nodes (bounded).')
TECHNIQUE = ('function contracts on the real methods, obligations generated from their jaxprs, discharged by index-notation '
             'normalisation and z3; 1-D matrix facts bounded in the number of nodes')

import contextlib
import numpy as np
import z3
from vf import fe, jxvc as jv, sem as sm
from vf.core import Failed, Unsupported

F = ['StokesSEM.filter', 'StokesSEM.vorticity', 'StokesVelocity.gather', 'StokesVelocity.scatter']


@contextlib.contextmanager
def free_interpolators(a, log):
  """BarycentricInterpolator in navier_stokes replaced by its contract: linear, by a matrix that
  depends on the two node sets only; node sets are logged"""
  from swirl_fem.navier_stokes import navier_stokes as ns
  import jax.numpy as jnp
  from jax import lax
  real = ns.BarycentricInterpolator

  class Stub:
    def __init__(self, ndim, gridpoints_1d, evalpoints_1d):
      self.ndim, self.g, self.e = ndim, gridpoints_1d, evalpoints_1d

    @property
    def mat(self):
      key = (self.ndim, self.g.num_points, self.g.node_type, self.e.num_points, self.e.node_type)
      if key not in log:
        log.append(key)
      nm = {(self.lo(), False): 'Rup', (False, self.lo()): 'Rdn'}
      down = self.e.num_points < self.g.num_points
      m = a['Rdn'] if down else a['Rup']
      if m.shape != (self.e.num_points ** self.ndim, self.g.num_points ** self.ndim):
        raise Unsupported(f'interpolation between unexpected node sets {key}')
      return m

    def lo(self):
      return self.g.num_points

    def interpolation_matrix(self):
      return self.mat

    def interpolate(self, u):
      return jnp.einsum('qp,p->q', self.mat, u, precision=lax.Precision.HIGHEST)
  ns.BarycentricInterpolator = Stub
  try:
    yield
  finally:
    ns.BarycentricInterpolator = real


def prove(chk):
  chk.function(*F)
  chk.assume('real arithmetic instead of floating point', 'callee contracts: interpolators are linear with the matrices of C08; exchange '
             'sums over classes of identified nodes (C02); diag_qqt counts the element slots of a node (C21 create)',
             'the velocity quadrature is collocated with the velocity nodes (C21 create)')
  chk.trust('JAX tracing and the primitive semantics of vf/jxvc.py', 'z3')
  prims = set()
  for ndim, nv in [(a, b) for a in (1, 2, 3) for b in ((3, 6, 4, 10) if chk.deep else (3, 6))]:
    d = ndim
    tr = sm.SemTracer(ndim, nv=nv, npr=1, no=2)
    P, L = nv ** d, (nv - 1) ** d
    tr.add('Rdn', (L, P)); tr.add('Rup', (P, L)); tr.add('al', ())
    u = tr.add('u', (tr.n, d)); v = tr.add('v', (tr.n, d))
    log, box = [], {}

    def get(tr=tr, box=box, log=log, prims=prims):
      if 'r' not in box:
        def f(sem, a):
          with free_interpolators(a, log):
            return dict(F=sem.filter(a['u'], alpha=a['al']), F0=sem.filter(a['u'], alpha=0.), Fd=sem.filter(a['u']),
                        F1=sem.filter(a['u'], alpha=1.))
        box['r'] = tr.run_sem(f)
        prims.update(tr.prims)
      return box['r']
    t = f'[ndim {ndim}, {nv} nodes]'

    def avg(i, k, tr=tr, P=P, L=L, u=u):
      """average over the slots (m,p) of node i of the element-wise down-and-up interpolation"""
      (m, p, l, q), b = fe.SUM(tr.Ez, P, L, P)
      ar = tr.ar
      s = jv.sum_over(b, (ar['Rup'].at(p, l) * ar['Rdn'].at(l, q) * tr.vloc(u, m, q, k)).guard(tr.elv.at(m, p) == i))
      return jv.recip(ar['qqt'].at(i)) * s

    def form(al, name, get=get, tr=tr, avg=avg, u=u, d=d, rest=None):
      rest = jv.Poly.const(1) - al if rest is None else rest
      spec = jv.Arr((tr.N, d), 'f', lambda i, k: rest * u.at(i, k) + al * avg(i, k))
      jv.prove_arr_eq(get()[name], spec, tr.hyps, 'filter')
    c = jv.Poly.const
    # default strength
    def dflt(form=form, get=get):
      import inspect
      from swirl_fem.navier_stokes import navier_stokes as ns
      al = inspect.signature(ns.StokesSEM.filter).parameters['alpha'].default
      form(c(jv.Fraction(al)), 'Fd', rest=c(jv.Fraction(1 - al)))    # 1 - alpha is rounded by Python
    chk.oblige(f'filter = (1-a) u + a average of the element-wise interpolation {t}', lambda form=form, tr=tr: form(tr.ar['al'].at(), 'F'), 'jxvc+z3')
    chk.oblige(f'filter of strength 1, and of the default strength {t}', lambda form=form, dflt=dflt: (form(c(1), 'F1'), dflt()) and None, 'jxvc+z3')

    def ident(get=get, tr=tr, u=u):
      jv.prove_arr_eq(get()['F0'], u, tr.hyps, 'zero strength')
    chk.oblige(f'filter of strength zero is the identity {t}', ident, 'jxvc+z3')

    def node_sets(get=get, log=log, d=d, nv=nv):
      get()
      g = {(k[1], k[2]) for k in log} | {(k[3], k[4]) for k in log}
      ty = {x[1] for x in g}
      if {x[0] for x in g} != {nv, nv - 1} or len(ty) != 1 or any(k[0] != d for k in log) or len(log) != 2:
        raise Failed(f'interpolation between {log}')
    chk.oblige(f'filter interpolates between the element nodes and one node fewer of the same family {t}', node_sets, 'trace')

    def average(tr=tr, P=P, u=u, d=d):
      # averaging lemma: scatter(gather(u)) = count * u, so fields whose element values pass the interpolation unchanged are unchanged
      def spec(i, k):
        (m, p), b = fe.SUM(tr.Ez, P)
        return jv.sum_over(b, c(1).guard(tr.elv.at(m, p) == i)) * u.at(i, k)
      r = tr.run_sem(lambda sem, a: sem.velocity.scatter(sem.velocity.gather(a['u'])))
      jv.prove_arr_eq(r, jv.Arr((tr.N, d), 'f', spec), tr.hyps, 'scatter(gather(u)) = multiplicity * u')
    chk.oblige(f'averaging element values of a nodal field returns the field {t}', average, 'jxvc+z3')

    def false(get=get, tr=tr, u=u):
      jv.prove_arr_eq(get()['F'], u, tr.hyps, 'identity at any strength')
    chk.canary('filter is the identity at any strength' + t, false, 'jxvc+z3')
  vorticity_obls(chk, prims)
  matrices(chk)
  chk.extra['primitives_interpreted'] = sorted(prims)


def vorticity_obls(chk, prims):
  tr = sm.SemTracer(2)
  u = tr.add('u', (tr.n, 2))
  box = {}

  def get():
    if 'r' not in box:
      box['r'] = tr.run_sem(lambda sem, a: sem.vorticity(a['u']))
      prims.update(tr.prims)
    return box['r']

  def spec(sign=-1, classes=True):
    same = (lambda i, j: tr.same(i, j)) if classes else (lambda i, j: jv.iz(i) == jv.iz(j))

    def at(i):
      (j, m, p), b = fe.SUM(tr.N, tr.Ez, tr.P)
      d = lambda k, ax: tr.grad(lambda a_, p_: tr.vloc(u, a_, p_, k), m, p, ax)
      num = jv.sum_over(b, (d(1, 0) + jv.Poly.const(sign) * d(0, 1)).guard(z3.And(same(i, j), tr.elv.at(m, p) == j)))
      (j2,), b2 = fe.SUM(tr.N)
      den = jv.sum_over(b2, tr.ar['qqt'].at(j2).guard(same(i, j2)))
      return num * jv.recip(den)
    return jv.Arr((tr.N,), 'f', at)
  chk.oblige('vorticity = average of d(u_y)/dx - d(u_x)/dy over all elements meeting at the node, identified nodes included',
             lambda: jv.prove_arr_eq(get(), spec(), tr.hyps, 'vorticity'), 'jxvc+z3')

  def single():
    i, j = jv.fresh('i'), jv.fresh('j')
    h = tr.hyps + [i >= 0, i < tr.N, j >= 0, j < tr.N, tr.same(i, j)]
    s = spec()
    jv.prove_eq(get().at(i), s.at(i), h, 'i')
    jv.prove_eq(get().at(j), s.at(j), h, 'j')
    # the specification depends on the class of the node only
    jv.prove_eq(s.at(i), s.at(j), h, 'single-valued')
  chk.oblige('vorticity is single-valued on identified nodes', single, 'jxvc+z3')
  chk.canary('sign of the vorticity', lambda: jv.prove_arr_eq(get(), spec(1), tr.hyps, 'sum instead of difference'), 'jxvc+z3')
  chk.canary('average over identified nodes matters', lambda: jv.prove_arr_eq(get(), spec(-1, False), tr.hyps, 'no identification'), 'jxvc+z3')


def matrices(chk):
  """T = up . down on the Gauss-Lobatto nodes: projector reproducing degree n-2, keeping end values"""
  def f(n):
    from swirl_fem.core.interpolation import BarycentricInterpolator, Nodes1D, NodeType
    mk = lambda k: Nodes1D.create(num_points=k, node_type=NodeType.GAUSS_LOBATTO_LEGENDRE)
    hi, lo = mk(n), mk(n - 1)
    M = lambda a, b: np.asarray(BarycentricInterpolator(ndim=1, gridpoints_1d=a, evalpoints_1d=b).interpolation_matrix(), float)
    T = M(lo, hi) @ M(hi, lo)
    x = np.asarray(sm.gll(n)[0])
    V = np.polynomial.legendre.legvander(x, n - 2)
    e0, e1 = np.eye(n)[0], np.eye(n)[-1]
    bad = dict(reproduction=np.abs(T @ V - V).max(), ends=max(np.abs(T[0] - e0).max(), np.abs(T[-1] - e1).max()))
    # and it is not the identity: the highest mode is changed
    if max(bad.values()) > 1e-10 or np.linalg.matrix_rank(T, tol=1e-8) != n - 1:
      raise Failed(f'n={n}: {bad} rank {np.linalg.matrix_rank(T, tol=1e-8)}', model=dict(n=n, T=T))
  for n in range(3, 15):
    chk.oblige(f'1-D filter matrix reproduces degree n-2 and keeps end values [{n} nodes]', lambda n=n: f(n), 'numeric',
               ['BarycentricInterpolator.interpolation_matrix'], bounded='number of 1-D nodes 3..14')


# ---------------------------------------------------------------------- runtime contracts
def contracts(chk):
  import jax.numpy as jnp
  from swirl_fem.navier_stokes import navier_stokes as ns
  rng = np.random.default_rng(chk.seed)
  cfg = [(2, 3, ()), (2, 2, (1,)), (2, 4, (0, 1)), (2, 3, (0,)), (3, 2, (0,)), (3, 3, ()), (1, 3, ())]
  for it in range(chk.n(6, 18)):
    ndim, order, per = cfg[it % len(cfg)]
    pm = sm.random_stokes_premesh(rng, ndim, per, n={1: 3, 2: 2, 3: 1 if not per else 2}[ndim])
    s = ns.StokesSEM.create(pm, {}, order=order)
    o = sm.DenseStokes(pm, s, order)
    N = o.N
    u = rng.uniform(-1, 1, (N, ndim))
    inp = dict(ndim=ndim, order=order, periodic=per, node_coords=pm.node_coords, elements=pm.elements, links=pm.periodic_links, u=u)
    # independent down-and-up interpolation matrix
    x, y = sm.gll(order + 1)[0], sm.gll(order)[0]
    lag = lambda a, b: np.linalg.solve(np.vander(a, len(a), increasing=True).T, np.vander(b, len(a), increasing=True).T).T
    T1 = lag(y, x) @ lag(x, y)
    T = T1
    for _ in range(ndim - 1):
      T = np.kron(T, T1)

    def filt(w, al):
      out = np.zeros_like(w)
      for e in o.el:
        np.add.at(out, e, T @ w[e])
      return (1 - al) * w + al * out / o.count[:, None]

    def close(a, b, what, tol=1e-9):
      a, b = np.asarray(a), np.asarray(b)
      if a.shape != b.shape or not np.allclose(a, b, rtol=tol, atol=tol * (1 + np.abs(b).max())):
        return dict(what=what, got=a, want=b)
    al = [.05, 1.7, 1., .3, -.6, 40.][it % 6]
    J = jnp.asarray
    chk.case('filter', lambda: close(s.filter(J(u), alpha=al), filt(u, al), f'alpha {al}'), dict(inp, alpha=al))
    chk.case('filter zero strength', lambda: close(s.filter(J(u), alpha=0.), u, 'identity', 1e-14), inp)

    def periodic():
      w = u[o.ids]
      r = np.asarray(s.filter(J(w), alpha=al))
      return close(r, r[o.ids], 'agrees at periodic images')
    chk.case('filter periodic', periodic, dict(inp, alpha=al))

    def low():
      # element-wise polynomials of degree order-1 that are continuous: functions of the first-order reference map are
      # not available globally, so use the multilinear geometry itself (degree 1 <= order-1)
      w = o.X
      if order >= 2:
        return close(s.filter(J(w), alpha=al), w, 'low-degree field unchanged')
    chk.case('filter low degree', low, dict(inp, alpha=al))
    if ndim == 2:
      def vort():
        num, den = np.zeros(N), np.zeros(N)
        for e, gr in zip(o.el, o.grads):
          g = np.einsum('qpj,pk->qjk', gr, u[e])
          np.add.at(num, e, g[:, 0, 1] - g[:, 1, 0])
        num, den = o.exchange(num), o.exchange(o.count)
        r = np.asarray(s.vorticity(J(u)))
        return close(r, num / den, 'vorticity', 1e-8)
      chk.case('vorticity', vort, inp)

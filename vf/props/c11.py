"""C11: local covectors are the exact dual vectors of forms."""
NOTE = ('Proof over the reals: for arbitrary coefficient arrays, geometry factors and element values (symbolic element count), '
        'the jaxpr of the real local_covector, contracted with any element values, is equal to that of integrate of the form; '
        'every form pointwise linear in the value and gradient of the placeholder is of the proved shape. Trusts JAX tracing '
        'and linear_transpose tracing, vf/jxvc.py and z3.')

import numpy as np
import z3
from vf import fe, jxvc as jv
from vf.core import Failed
from vf.props.c10 import tracer, unroll

FUNCS = ['FiniteElementSpace.local_covector', 'FiniteElementSpace.integrate', 'NodalQFunction.__call__', 'grad']


def prove(chk):
  chk.function(*FUNCS)
  chk.assume('real arithmetic instead of floating point',
             'a form linear in its placeholder is, at each quadrature point, an arbitrary linear functional of the value and '
             'the gradient of the placeholder (the two things a q-function exposes): h.v + g:grad v with arbitrary h, g')
  chk.trust('JAX tracing, jax.linear_transpose and the primitive semantics of vf/jxvc.py', 'z3')
  prims = set()
  from swirl_fem.core import fespace as fs
  for ndim, np1, nq1 in fe.sweep(chk):
    sz = fe.Sizes(ndim, np1, nq1)
    P, Q, d = sz.P, sz.Q, ndim
    gp = fe.nodes('nc', sz.np1)
    for rank in ('scalar', 'vector'):
      tr = tracer(sz)
      E = tr.dims['e']
      fe.geo_args(tr, sz)
      vs = () if rank == 'scalar' else (d,)
      v = tr.add('v', (tr.E, P) + vs)
      h = tr.add('h', (tr.E, Q) + vs); g = tr.add('g', (tr.E, Q, d) + vs)
      tr.add('X', (tr.n, d)); tr.add('el', (tr.E, P), 'i')
      ar = {k: a for k, (_, _, a) in tr.args.items()}
      box = {}

      def get(rank=rank, tr=tr, box=box):
        if 'r' in box:
          return box['r']

        def fn(a):
          s = fe.get_space(a, fe.raw_mesh(a['X'], a['el'], gp), sz)
          mk = s.scalar_function if rank == 'scalar' else s.vector_function
          H, G_ = fe.given(s, a['h']), fe.given(s, a['g'])
          import jax.numpy as jnp

          def form(w):
            return lambda x: jnp.sum(H(x) * w(x)) + jnp.sum(G_(x) * fs.grad(w)(x))
          return dict(lc=s.local_covector(form, (mk(None),)), it=s.integrate(form(mk(a['v']))),
                      lc2=s.local_covector(lambda c, w: form(w), (mk(a['v']), mk(None))))
        box['r'] = tr.run(fn)
        prims.update(tr.prims)
        return box['r']

      def spec_cov(m, p, *k):
        """sum over q of w det (h I + sum_ij g_j invj_ji G_i)"""
        (q,), b = fe.SUM(Q)
        (q2, i, j), b2 = fe.SUM(Q, d, d)
        t1 = jv.sum_over(b, ar['w'].at(q) * ar['det'].at(m, q) * h.at(m, q, *k) * ar['I'].at(q, p))
        t2 = jv.sum_over(b2, ar['w'].at(q2) * ar['det'].at(m, q2) * g.at(m, q2, j, *k) * ar['invj'].at(m, q2, j, i) *
                         ar['G'].at(q2, p, i))
        return t1 + t2
      spec = jv.Arr([E, P] + list(vs), 'f', spec_cov)

      def formula(which='lc', get=get, spec=spec, tr=tr, d=d):
        jv.prove_arr_eq(unroll(get()[which], d), unroll(spec, d), tr.hyps, 'local_covector')

      def duality(get=get, tr=tr, v=v, vs=vs, d=d):
        r = get()
        (m, p, *k), b = fe.SUM(E, P, *vs)
        lhs = jv.sum_over(b, r['lc'].at(m, p, *k) * v.at(m, p, *k))
        A = jv.Arr([], 'f', lambda: lhs)
        jv.prove_arr_eq(unroll(A, d), unroll(r['it'], d), tr.hyps, '<local_covector, v> = integral of form(v)')

      def wrong(get=get, tr=tr, v=v, vs=vs, d=d):
        r = get()
        (m, p, *k), b = fe.SUM(E, P, *vs)
        A = jv.Arr([], 'f', lambda: jv.sum_over(b, r['lc'].at(m, p, *k) * v.at(m, p, *k)) * jv.Poly.const(2))
        jv.prove_arr_eq(unroll(A, d), unroll(r['it'], d), tr.hyps, 'twice')
      tag = f'[{rank}, ndim {ndim}, order {np1 - 1}, {nq1} points]'
      chk.oblige('duality: <local_covector, v> = integrate(form(v)) ' + tag, duality, 'jxvc+z3')
      chk.oblige('local_covector is the weak-form formula ' + tag, formula, 'jxvc+z3')
      chk.oblige('other arguments of the form are passed through ' + tag, lambda f=formula: f('lc2'), 'jxvc+z3')
      chk.canary('dual pairing twice the integral ' + tag, wrong, 'jxvc+z3')

  # rejection: exactly one placeholder, for every number (and position) of placeholders up to 4 arguments
  def rejects():
    import itertools
    sp, mesh = _space(np.random.default_rng(0), 1, 2)
    ul = np.zeros((mesh.num_elements, mesh.num_nodes_per_element))
    for n in range(0, 5):
      for pat in itertools.product([True, False], repeat=n):
        funs = tuple(sp.scalar_function(None if p else ul) for p in pat)
        form = lambda *us: (lambda x: sum(u(x) for u in us[:0]) + (us[[i for i, p in enumerate(pat) if p][0]](x)))
        try:
          sp.local_covector(form, funs); ok = True
        except ValueError:
          ok = False
        if ok != (sum(pat) == 1):
          raise Failed('placeholder count check', model=dict(placeholders=pat, accepted=ok))
  chk.oblige('calls without exactly one placeholder are rejected', rejects, 'enumeration',
             bounded='all placeholder patterns of up to 4 arguments')
  chk.extra['primitives_interpreted'] = sorted(prims)


def _space(rng, ndim, order):
  from swirl_fem.core import fespace as fs
  from swirl_fem.core.interpolation import NodeType, Quadrature1D
  from swirl_fem.core.mesh_refiner import refine_premesh
  pm = fe.random_premesh(rng, ndim, n=2 if ndim < 3 else 1)
  rp = refine_premesh(pm, fe.nodes('gll', order + 1)) if order > 1 else pm
  mesh = rp.finalize()
  sp = fs.FiniteElementSpace.create(mesh, Quadrature1D.create(num_points=order + 1, quadrature_type=NodeType.GAUSS_LEGENDRE))
  return sp, mesh


def contracts(chk):
  import jax.numpy as jnp
  from swirl_fem.core import fespace as fs
  rng = np.random.default_rng(chk.seed)
  for it in range(chk.n(6, 24)):
    ndim = 1 + it % 3
    sp, mesh = _space(rng, ndim, int(rng.integers(1, [9, 6, 4][ndim - 1])))
    el = np.asarray(mesh.elements)
    k = rng.uniform(-1, 1, mesh.num_nodes); kl = jnp.asarray(k[el])
    kv = rng.uniform(-1, 1, (mesh.num_nodes, ndim)); kvl = jnp.asarray(kv[el])
    v = rng.uniform(-1, 1, el.shape); w = rng.uniform(-1, 1, el.shape + (ndim,))
    dot = jnp.dot
    sf = [('mass', lambda c, b, u: lambda x: c(x) * u(x)),
          ('stiff', lambda c, b, u: lambda x: dot(fs.grad(c)(x), fs.grad(u)(x))),
          ('mixed', lambda c, b, u: lambda x: dot(b(x), fs.grad(u)(x)) * c(x) + jnp.sin(x[0]) * u(x) + x[-1] * fs.grad(u)(x)[-1])]
    vf = [('vmass', lambda c, b, u: lambda x: dot(b(x), u(x))),
          ('conv', lambda c, b, u: lambda x: jnp.einsum('j,jk,k->', b(x), fs.grad(u)(x), jnp.exp(x))),
          ('div', lambda c, b, u: lambda x: c(x) * fs.div(u)(x)),
          ('full', lambda c, b, u: lambda x: jnp.sum(fs.grad(b)(x) * fs.grad(u)(x)) + c(x) * u(x)[0])]
    inp = dict(ndim=ndim, node_coords=mesh.node_coords, elements=el, k=k, kv=kv, v=v, w=w)
    for forms, val, mk in ((sf, v, sp.scalar_function), (vf, w, sp.vector_function)):
      for name, f in forms:
        def dual(f=f, val=val, mk=mk):
          c, b = sp.scalar_function(kl), sp.vector_function(kvl)
          lc = np.asarray(sp.local_covector(f, (c, b, mk(None))))
          if lc.shape != val.shape:
            return dict(what='shape', got=lc.shape)
          a, e = float((lc * val).sum()), float(sp.integrate(f(c, b, mk(jnp.asarray(val)))))
          scale = np.abs(lc * val).sum() + 1e-12
          if abs(a - e) > 1e-9 * scale + 1e-10:
            return dict(pairing=a, integral=e)
          # locality: the value of one element's entry depends on that element only
          lo = np.zeros_like(val); lo[0] = val[0]
          a0, e0 = float((lc * lo).sum()), float(sp.integrate(f(c, b, mk(jnp.asarray(lo)))))
          if abs(a0 - e0) > 1e-9 * scale + 1e-10:
            return dict(pairing=a0, integral=e0)
        chk.case('duality:' + name, dual, dict(inp, form=name))

    def rej():
      for funs in ((sp.scalar_function(kl),), (sp.scalar_function(None), sp.scalar_function(None)), ()):
        try:
          sp.local_covector(lambda *u: (lambda x: u[0](x)), funs)
        except ValueError:
          continue
        return f'{len(funs)} functions accepted'
    chk.case('placeholder count', rej, dict(ndim=ndim))

"""Contracts of facet_util and premesh_commons for every number of points / elements, proved with vf/gridvc.py."""
import itertools
import numpy as np
from vf import gridvc as gv
from vf.core import Failed, Unsupported
from vf.gridvc import S


ASSUME = ('index code: integers are mathematical, dtypes are dropped; numpy (arange, reshape, transpose, flip, repeat, stack, meshgrid, '
          'linspace, ravel_multi_index), itertools.product and more_itertools.pairwise are represented by contracts on tensor-product '
          'layouts of symbolic size')


def symbols(**low):
  s = gv.sp()
  out = [s.Symbol(k, integer=True) for k in low]
  gv.Rules.low = dict(zip(out, low.values()))
  gv.Rules.div, gv.Rules.eq = {}, []
  gv.FRAMES.clear()
  gv.INRANGE.clear()
  return [S(x) for x in out]


def digits(ns):
  """generic digits"""
  out = []
  for n in ns:
    c = gv.conc(n)
    out.append(0 if c == 1 else S(gv.fresh('x')) if c is None else None)
  return out


def equal(a, b, what, **model):
  if not gv.same(a, b):
    raise Failed(f'{what}: {a} instead of {b}', model=model or None)


def linear(idx, m):
  v = 0
  for i in idx:
    v = v * m + i
  return v


def ordering(d, wrong=False):
  """get_orderings_mapping(d, m) for every m >= 1"""
  from swirl_fem.common import facet_util as fu
  m, = symbols(m=1)
  table = gv.instrument(fu.get_orderings_mapping)(d, m)
  if not isinstance(table, dict):
    raise Unsupported('form of the result')
  want = {}
  for perm in itertools.permutations(range(d)):
    for flips in itertools.product((0, 1), repeat=d):
      def oriented(ix, k, perm=perm, flips=flips):
        src = [0] * d
        for a in range(d):
          src[perm[a]] = k - 1 - ix[a] if flips[a] else ix[a]
        return linear(src, k)
      want[tuple(int(oriented(ix, 2)) for ix in itertools.product(range(2), repeat=d))] = oriented
  got = {tuple(int(x) for x in k): v for k, v in table.items()}
  if set(got) != set(want):
    raise Failed('keys of the table', model=dict(ndim=d, keys=len(got), want=len(want)))
  for k, v in got.items():
    if d == 0 and isinstance(v, np.ndarray):
      if v.shape != (1,) or v[0] != 0:
        raise Failed('table of a point', model=dict(ndim=0))
      continue
    if not isinstance(v, gv.Grid) or v.ndim != 1:
      raise Unsupported('form of the result')
    v = v.reshape([m] * d)
    x = [S(gv.fresh('x')) for _ in range(d)]
    if any(len(a) != 1 for a in v.axes):
      raise Unsupported('layout of the result')
    equal(v.f(*x), want[k](x if not wrong else x[::-1], m), f'ordering of the facet nodes for the corners {k}')
  return f'{len(want)} orientations, every number of points'


def slices(n, wrong=False):
  """slice_from_facet_type for every facet of the n-cube and every number of points m >= 2"""
  from swirl_fem.common import facet_util as fu
  from swirl_fem.common.facet_util import FacetDimType as T
  m, = symbols(m=2)
  f = gv.instrument(fu.slice_from_facet_type)
  cnt = 0
  for t in itertools.product(list(T), repeat=n):
    for inner in (True, False):
      e = gv.Grid([[m]] * n, lambda *c: linear(c, m))
      got = e[tuple(f(t, interior_nodes_only=inner))]
      if not isinstance(got, gv.Grid):
        got = gv.Grid([], lambda v=got: v)
      size = m - 2 if inner else m
      free = [a for a in t if a is T.INNER]
      if got.ndim != len(free) or any(not gv.same(s, size) for s in got.shape):
        raise Failed('shape of the selection', model=dict(facet=[a.name for a in t], inner=inner, shape=str(got.shape)))
      x = [S(gv.fresh('x')) for _ in free]
      it = iter(x)
      idx = [0 if a is T.FIRST else m - 1 if a is T.LAST else next(it) + (1 if inner else 0) for a in t]
      if wrong:
        idx = idx[::-1]
      equal(got.f(*x), linear(idx, m), 'selection of ' + '/'.join(a.name for a in t))
      cnt += 1
  # per axis every index in [0, m) lies in exactly one of {0}, [1, m - 1), {m - 1}
  import z3
  i, k = z3.Ints('i k')
  s = z3.Solver()
  s.add(k >= 2, 0 <= i, i < k, z3.Sum(*[z3.If(q, 1, 0) for q in (i == 0, z3.And(1 <= i, i < k - 1), i == k - 1)]) != 1)
  if s.check() != z3.unsat:
    raise Failed('cover of an axis')
  return f'{cnt} selections, every number of points'


# ---------------------------------------------------------------- unit cube
def pieces(x):
  if x is None:
    return []
  if isinstance(x, gv.Cat):
    return [p for q in x.parts for p in pieces(q)]
  if isinstance(x, np.ndarray):
    if x.dtype == object:
      raise Unsupported('array of objects')
    return [] if not x.size else pieces(gv.grid_of(x))
  if not isinstance(x, gv.Grid):
    raise Unsupported('form of the result')
  # unroll the concrete digits of the first axis: what is left has symbolic digits only there
  ax = x.axes[0]
  out = []
  for c in itertools.product(*[range(gv.conc(n)) if gv.conc(n) is not None else [None] for n in ax]):
    keep = [n for n, v in zip(ax, c) if v is None]

    def f(*d, c=c):
      it = iter(d)
      return x.f(*[next(it) if v is None else v for v in c], *it)
    out.append(norm(gv.Grid([keep] + x.axes[1:], f)))
  return out


def multi(node, c, N, ndim):
  """the grid position of the node number; found from sample values, confirmed as polynomials. The entries are 0, N, a digit
  or its successor, all of them below N + 1, so the position is the only one"""
  s = gv.sp()
  cand = [S(0), N] + [x + d for x in c for d in (0, 1)]
  val = {N.e: 10007, **{x.e: 1009 + 2003 * k for k, x in enumerate(c)}}
  n = s.expand(gv.raw(node)).subs(val)
  if not n.is_Integer or not 0 <= n < 10008 ** ndim:
    raise Unsupported('node number')
  n, pos = int(n), []
  for k in range(ndim):
    q, n = divmod(n, 10008 ** (ndim - 1 - k))
    hit = [x for x in cand if gv.raw(x).subs(val) == q]
    if len(hit) != 1:
      raise Failed(f'node {node} is not a corner of the cell {c}')
    pos.append(hit[0])
  if not gv.same(linear(pos, N + 1), node):
    raise Unsupported('node number')
  return pos


def norm(g):
  """one digit per axis after the first, no digits of size one in the first"""
  sel = []
  for k, ax in enumerate(g.axes):
    if k == 0:
      sel.append(([n for n in ax if not gv.is1(n)], None))
    elif len(ax) == 1:
      sel.append((ax, None))
    else:
      cs = [gv.conc(n) for n in ax]
      if None in cs:
        raise Unsupported('layout of an axis')
      sel.append(([int(np.prod(cs, dtype=int))], cs))

  def f(*c):
    out, c = [], list(c)
    for (ds, cs), ax in zip(sel, g.axes):
      if cs is None:
        it = iter([c.pop(0) for _ in ds])
        out += [0 if gv.is1(n) and len(ds) != len(ax) else next(it) for n in ax]
      else:
        v, dig = int(c.pop(0)), []
        for n in cs[::-1]:
          v, r = divmod(v, n)
          dig.append(r)
        out += dig[::-1]
    return g.f(*out)
  return gv.Grid([d for d, _ in sel], f)


def unit_cube(ndim, periodic, parts=False, wrong=False):
  """unit_cube_mesh for every N >= 1, all corner coordinates a, b and (parts) every block partition"""
  from swirl_fem.common import premesh_commons as pc
  from vf.props.c26 import Shim
  s = gv.sp()
  names = dict(N=1) if not parts else {**{f'p{k}': 1 for k in range(ndim)}, 'N': 1, **{f'r{k}': 1 for k in range(ndim)}}
  syms = dict(zip(names, symbols(**names)))
  N = syms['N']
  a, b = S(s.Symbol('a', real=True)), S(s.Symbol('b', real=True))
  pa = None
  if parts:
    # N = p_k r_k for every axis
    ps, rs = [syms[f'p{k}'] for k in range(ndim)], [syms[f'r{k}'] for k in range(ndim)]
    for p, r in zip(ps, rs):
      gv.Rules.div[(N.e, p.e)] = r.e
      gv.Rules.eq.append(p.e * r.e - N.e)
    B = s.Function('block')
    pa = gv.Grid([[p] for p in ps], lambda *c: S(B(*[gv.raw(x) for x in c])))
  made = []

  def create(**kw):
    made.append(kw)
    return made
  out = gv.instrument(pc.unit_cube_mesh, dict(Premesh=Shim(None, create=create)))(
      N, ndim=ndim, a=a, b=b, periodic_dims=periodic, partitions=pa)
  if out is not made or len(made) != 1:
    raise Unsupported('form of the result')
  kw = dict(made[0])
  X, E = kw.pop('node_coords'), kw.pop('elements')
  links, groups, part = kw.pop('periodic_links', None), kw.pop('physical_groups', None) or {}, kw.pop('partitions', None)
  if kw:
    raise Unsupported('other fields')
  M = N + 1
  # nodes
  if not isinstance(X, gv.Grid) or X.ndim != 2:
    raise Unsupported('form of the coordinates')
  if not gv.same(X.shape[0], M ** ndim) or not gv.same(X.shape[1], ndim):
    raise Failed('shape of the coordinates', model=dict(shape=str(X.shape)))
  X = norm(X)
  if len(X.axes[0]) != ndim or any(not gv.same(n, M) for n in X.axes[0]):
    raise Unsupported('layout of the coordinates')
  x = [S(gv.fresh('x')) for _ in range(ndim)]
  for k in range(ndim):
    equal(X.f(*x, k), a + (b - a) * x[k if not wrong else ndim - 1 - k] / N + (1 if wrong and ndim == 1 else 0), f'coordinate {k} of node {x}')
  # elements
  q = 2 ** ndim

  def rows(p, corners):
    """generic row of a piece: its grid positions; the digits of the first axis are cells"""
    if len(p.axes) < 2 or any(len(t) != 1 for t in p.axes[1:]):
      raise Unsupported('layout of the rows')
    c = [S(gv.fresh('c')) for _ in p.axes[0]]
    if any(not gv.same(n, N) for n in p.axes[0]):
      raise Unsupported('layout of the rows')
    return c, lambda *j: multi(p.f(*c, *j), c, N, ndim)

  ps_ = pieces(E)
  if len(ps_) != 1 or ps_[0].ndim != 2:
    raise Unsupported('layout of the elements')
  if len(ps_[0].axes[0]) != ndim or not gv.same(ps_[0].shape[1], q):
    raise Failed('number of elements or nodes of an element', model=dict(shape=str(E.shape)))
  c, at = rows(ps_[0], q)
  base = at(0)
  order = []        # the axis of every digit
  for k in range(ndim):
    hit = [j for j in range(ndim) if gv.same(base[k], c[j])]
    if len(hit) != 1:
      raise Unsupported(f'first node of element {c} is {base}')
    order.append(hit[0])
  if sorted(order) != list(range(ndim)):
    raise Unsupported('elements are not the cells')
  for j, o in enumerate(itertools.product((0, 1), repeat=ndim)):
    p = at(j)
    for k in range(ndim):
      equal(p[k], base[k] + o[k], f'node {j} of the element {c}, axis {k}')
  # boundary and links
  def facet(p, fixed):
    """fixed: where the last index goes; returns (axis, side) of a generic facet"""
    c, at = rows(p, 2 ** (ndim - 1))
    res = []
    for e in fixed:
      pos = [at(*e, j) for j in range(2 ** (ndim - 1))]
      sides = [(k, side) for k in range(ndim) for side in (0, 1) if all(gv.same(z[k], N if side else 0) for z in pos)]
      if len(sides) != 1:
        raise Unsupported('facets')
      ax = sides[0][0]
      free = [k for k in range(ndim) if k != ax]
      if len(c) != len(free):
        raise Unsupported('facets')
      own = []
      for k in free:
        hit = [j for j in range(len(c)) if gv.same(pos[0][k], c[j])]
        if len(hit) != 1:
          raise Unsupported(f'first node of the facet {c} is {pos[0]}')
        own.append(hit[0])
      if sorted(own) != list(range(len(c))):
        raise Failed('facets of a side')
      for j, o in enumerate(itertools.product((0, 1), repeat=ndim - 1)):
        for k, d in zip(free, o):
          equal(pos[j][k], pos[0][k] + d, f'node {j} of the facet {c}')
      res.append((sides[0], own))
    return res
  want = {(k, side) for k in range(ndim) if k not in periodic for side in (0, 1)}
  if set(groups) != ({'boundary'} if want else set()):
    raise Failed('groups', model=dict(groups=sorted(groups), periodic=list(periodic)))
  got = []
  for p in pieces(groups.get('boundary')):
    if p.ndim != 2 or not gv.same(p.shape[1], 2 ** (ndim - 1)):
      raise Failed('shape of the boundary', model=dict(shape=str(p.shape)))
    got.append(facet(p, [()])[0][0])
  if sorted(got) != sorted(want):
    raise Failed('sides in the boundary group', model=dict(got=sorted(got), want=sorted(want), periodic=list(periodic)))
  got = []
  for p in pieces(links):
    if p.ndim != 3 or not gv.same(p.shape[1], 2) or not gv.same(p.shape[2], 2 ** (ndim - 1)):
      raise Failed('shape of the links', model=dict(shape=str(p.shape)))
    (s0, o0), (s1, o1) = facet(p, [(0,), (1,)])
    if o0 != o1:
      raise Unsupported('order of the linked facets')
    if s0[0] != s1[0] or s0[1] == s1[1]:
      raise Failed('linked facets are not opposite', model=dict(first=s0, second=s1))
    got.append(s0[0])
  if sorted(got) != sorted(set(periodic)):
    raise Failed('linked axes', model=dict(got=sorted(got), periodic=list(periodic)))
  # partitions
  if parts != (part is not None):
    raise Failed('partitions')
  if parts:
    if not isinstance(part, gv.Grid) or part.ndim != 1:
      raise Unsupported('form of the partitions')
    d = part.digits()
    if len(d) != 2 * ndim or any(not gv.same(d[2 * k], ps[k]) or not gv.same(d[2 * k + 1], rs[k]) for k in range(ndim)):
      raise Unsupported('layout of the partitions')
    if order != list(range(ndim)):
      raise Unsupported('order of the elements')
    y = [S(gv.fresh('y')) for _ in d]
    # the element with the digits y[2k] r_k + y[2k+1] lies in the block y[0], y[2], ...
    equal(part.f(*y), pa.f(*y[::2]), 'partition of an element')
  # the multi-indices turned into node numbers are in range: corners of cells below N + 1
  for i, n in gv.INRANGE:
    e = gv.raw(i)
    free = [t for t in e.free_symbols if t != N.e]
    if not gv.same(n, M) or not (e.is_Integer or gv.same(S(e), N) or len(free) == 1 and gv.raw(S(e) - S(free[0])) in (0, 1)):
      raise Unsupported(f'range of a multi-index: {e} below {n}')
  return 'every N'

"""Contracts of the host-side index constructions of gather_scatter, proved with vf/symcol.py from their current source."""
import inspect
from vf import symcol as sc, pyvc
from vf.pyvc import Z
from vf.core import Failed, Unsupported
from vf.symcol import z3


def shims(**over):
  from vf.props.c26 import Shim
  import collections, jax
  np_over = over.pop('np', {})
  return dict(np=sc.NpShim(**np_over), collections=Shim(collections, Counter=sc.counter),
              jax=Shim(jax, tree=Shim(None, map=sc.tree_map), tree_util=Shim(None, tree_map=sc.tree_map)), **over)


def go(body, what):
  """explores all paths; body returns True on a path that reaches the postcondition"""
  n = [0]

  def run(c):
    if body(c):
      # the assumptions on a path that reaches the postcondition must not be contradictory
      n[0] += 1
      if c.known(z3().BoolVal(False)):
        n[0] -= 1
  p = sc.explore(run)
  if not n[0]:
    raise Failed(f'vacuous: the postcondition of {what} is never reached')
  return f'{p} paths'


def seq_of(x, what):
  if not isinstance(x, sc.Arr1):
    raise Unsupported(f'{what} is not a one-dimensional array')
  return x.s


def canary(fn, *a):
  """the contract with a false clause: must not be provable (z3 gives no proof within the limit, or a model)"""
  old = list(sc.MS)
  sc.MS[:] = [1500, 500]
  try:
    return fn(*a, wrong=True)
  except Unsupported as e:
    if str(e).startswith('z3: unknown'):
      raise Failed('not provable')
    raise
  finally:
    sc.MS[:] = old


ASSUME = ('host code: integers are mathematical, dtypes and casts are dropped; numpy (array, asarray, stack, hstack, full, '
          'unique, vectorize), collections.Counter and jax.tree.map are represented by contracts')


def grid(a):
  if isinstance(a, sc.Arr2):
    return a.n1, a.n2, lambda p, x: sc.num(a.at(p, x))
  if isinstance(a, sc.NdArr) and a.ndim == 2:
    return a.shp[0], a.shp[1], a.fun()
  raise Unsupported('form of the result')


def fun1(nm):
  return z3().Function(nm, z3().IntSort(), z3().IntSort())


def fun2(nm):
  return z3().Function(nm, z3().IntSort(), z3().IntSort(), z3().IntSort())


def exchange_single(wrong=False):
  from swirl_fem.core import gather_scatter as gs
  m = z3()

  def body(c):
    n, ids = m.Int('n'), fun1('ids')
    c.pc.append(n >= 0)
    k = sc.bvar()
    f = sc.instrument(gs.get_exchange_indices, shims())
    gi, ui = f(sc.Arr1(sc.Seq(n, k, Z(ids(k)))))
    G, U = seq_of(gi, 'gather_indices'), seq_of(ui, 'unique_indices')
    a, b, i, j = m.Ints('a b i j')
    g, u = (lambda t: sc.num(G.at(t))), (lambda t: sc.num(U.at(t)))
    ra, rb = m.And(0 <= a, a < G.n), m.And(0 <= b, b < G.n)
    c.require(U.n == G.n, 'as many class numbers as gather indices')
    c.require(m.Implies(ra, m.And(0 <= g(a), g(a) < n, ids(g(a)) != -1)), 'gather indices are node numbers')
    c.require(m.Implies(m.And(ra, rb, a != b), g(a) != g(b)), 'no node is listed twice')
    same = ids(g(a)) == ids(g(b)) if not wrong else g(a) == g(b)
    c.require(m.Implies(m.And(ra, rb), (u(a) == u(b)) == same), 'class numbers agree exactly for equal ids')
    c.require(m.Implies(ra, u(a) >= 0), 'class numbers are not negative')
    hit = m.Exists([a], m.And(ra, g(a) == i))
    c.require(m.Implies(m.And(0 <= i, i < n, 0 <= j, j < n, i != j, ids(i) == ids(j), ids(i) != -1), hit),
              'every node with another copy is listed')
    return True
  return go(body, 'get_exchange_indices')


def exchange_partitioned(wrong=False):
  from swirl_fem.core import gather_scatter as gs
  m = z3()

  def body(c):
    P, n, ids = m.Int('P'), m.Int('n'), fun2('ids')
    c.pc.append(m.And(P >= 1, n >= 0))
    p, q, i, j, x, y = m.Ints('p q i j x y')
    k, l = sc.bvar(), sc.bvar()
    inr = lambda p, i: m.And(0 <= p, p < P, 0 <= i, i < n)
    dup = m.Exists([p, i, j], m.And(inr(p, i), inr(p, j), i < j, ids(p, i) == ids(p, j), ids(p, i) != -1))
    f = sc.instrument(gs.get_exchange_indices, shims())
    try:
      gi, ui = f(sc.Arr2(P, n, k, l, Z(ids(k, l))))
    except NotImplementedError:
      c.require(dup, 'rejected only if an id occurs twice inside a partition')
      return False
    c.require(m.Not(dup), 'an id occurring twice inside a partition is rejected')
    if ui is not None:
      raise Unsupported('form of the result')
    n1, E, A = grid(gi)
    c.require(n1 == P, 'one row per partition')
    col = lambda p, x: m.And(0 <= p, p < P, 0 <= x, x < E)
    c.require(m.Implies(col(p, x), m.Or(A(p, x) == -1, m.And(0 <= A(p, x), A(p, x) < n, ids(p, A(p, x)) != -1))),
              'entries are node numbers or padding')
    listed = lambda p, x: m.And(col(p, x), A(p, x) != -1)
    c.require(m.Implies(m.And(listed(p, x), listed(q, x)), ids(p, A(p, x)) == ids(q, A(q, x)) if not wrong else p == q),
              'one column, one id')
    c.require(m.Implies(m.And(listed(p, x), listed(q, y), ids(p, A(p, x)) == ids(q, A(q, y))), x == y), 'one id, one column')
    c.require(m.Implies(m.And(inr(p, i), inr(q, j), p != q, ids(p, i) == ids(q, j), ids(p, i) != -1),
                        m.Exists([x], m.And(col(p, x), A(p, x) == i))), 'every node with another copy is listed')
    return True
  return go(body, 'get_exchange_indices')


def group_by_partitions(wrong=False):
  from swirl_fem.core import gather_scatter as gs
  m = z3()

  def body(c):
    n, part = m.Int('n'), fun1('part')
    i, p, a, b = m.Ints('i p a b')
    c.pc.append(n >= 1)
    c.axs.append(m.ForAll([i], m.Implies(m.And(0 <= i, i < n), part(i) >= 0), patterns=[part(i)]))
    k = sc.bvar()
    out = sc.instrument(gs.group_by_partitions, shims())(sc.Arr1(sc.Seq(n, k, Z(part(k)))))
    P, N, A = grid(out)
    rng = lambda i: m.And(0 <= i, i < n)
    col = lambda p, x: m.And(0 <= p, p < P, 0 <= x, x < N)
    c.require(m.Implies(rng(i), part(i) < P), 'every partition has a row')
    c.require(m.Exists([i], m.And(rng(i), part(i) == P - 1)), 'the last row is used')
    c.require(m.Implies(m.And(col(p, a)), m.Or(A(p, a) == -1, m.And(rng(A(p, a)), part(A(p, a)) == p))),
              'a row holds indices of its partition and padding')
    c.require(m.Implies(m.And(col(p, a), col(p, b), a != b, A(p, a) != -1), A(p, a) != (A(p, b) if not wrong else -2 + A(p, a) + 2)),
              'no index is listed twice')
    c.require(m.Implies(rng(i), m.Exists([a], m.And(col(part(i), a), A(part(i), a) == i))), 'every index is listed')
    c.require(m.Exists([p], m.ForAll([a], m.Implies(col(p, a), A(p, a) != -1))), 'no padding in the longest row')
    return True
  return go(body, 'group_by_partitions')


def local_elements(wrong=False):
  """rows of any common shape, numbered by their flat positions"""
  from swirl_fem.core import gather_scatter as gs
  m = z3()

  def body(c):
    P, L, el = m.Int('P'), m.Int('L'), fun2('el')
    i, p, a, b = m.Ints('i p a b')
    c.pc.append(m.And(P >= 1, L >= 0))
    c.axs.append(m.ForAll([p, i], el(p, i) >= -1, patterns=[el(p, i)]))
    k, l = sc.bvar(), sc.bvar()
    ni, le = sc.instrument(gs.get_local_elements, shims())(sc.Rows(P, L, k, l, Z(el(k, l))))
    (n1, N, A), (m1, m2, E) = grid(ni), grid(le)
    rp = m.And(0 <= p, p < P)
    col = lambda x: m.And(rp, 0 <= x, x < N)
    pos = lambda x: m.And(rp, 0 <= x, x < L)
    c.require(m.And(n1 == P, m1 == P, m2 == L), 'one row per partition, elements keep their shape')
    c.require(m.Implies(m.And(col(a), A(p, a) != -1), m.Exists([i], m.And(pos(i), el(p, i) == A(p, a)))),
              'a partition lists nodes of its elements only')
    c.require(m.Implies(m.And(col(a), col(b), a != b, A(p, a) != -1), A(p, a) != A(p, b)), 'no node is listed twice')
    c.require(m.Implies(m.And(pos(i), el(p, i) == -1), E(p, i) == -1), 'padding stays padding')
    c.require(m.Implies(m.And(pos(i), el(p, i) != -1),
                        m.And(0 <= E(p, i), E(p, i) < N, A(p, E(p, i)) == (el(p, i) if not wrong else i))),
              'the local number leads back to the global one')
    return True
  return go(body, 'get_local_elements')


# ---------------------------------------------------------------- periodic links
class Links:
  """the link array: facet f links node L(f, 0, q) to L(f, 1, q)"""
  ndim = 3

  def __init__(self, L, dims, perm=(0, 1, 2)):
    self.L, self.dims, self.perm = L, dims, perm

  @property
  def shape(self):
    return tuple(Z(self.dims[a]) if a != 1 else 2 for a in self.perm)

  @property
  def size(self):
    return Z(self.dims[0] * 2 * self.dims[2])

  def transpose(self, *axes):
    axes = axes[0] if len(axes) == 1 else axes
    return Links(self.L, self.dims, tuple(self.perm[a] for a in axes))

  def swapaxes(self, a, b):
    p = list(self.perm)
    p[a], p[b] = p[b], p[a]
    return Links(self.L, self.dims, tuple(p))

  def bag(self):
    raise Unsupported('iteration over the links')

  def reshape(self, *s):
    s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
    if tuple(s) != (-1, 2) or self.perm[-1] != 1:
      raise Unsupported('reshape of the links')
    return Pairs(self)


class Pairs:
  """the linked pairs, in some order"""

  def __init__(self, links):
    self.links = links

  def tolist(self):
    return self

  def bag(self):
    m, l = z3(), self.links
    f, q = sc.bvar('f'), sc.bvar('q')
    return sc.Bag([f, q], m.And(0 <= f, f < l.dims[0], 0 <= q, q < l.dims[2]), (Z(l.L(f, z3().IntVal(0), q)), Z(l.L(f, z3().IntVal(1), q))))


class Graph:
  """contract of networkx.Graph(list of pairs): the undirected graph of these edges"""

  def __init__(self, edges=None):
    if edges is None:
      raise Unsupported('an empty graph')
    self.edges = sc.bag_of(edges)
    if self.edges is None or not isinstance(self.edges.val, tuple) or len(self.edges.val) != 2:
      raise Unsupported('edges')


class Component:

  def __init__(self, r, cc, vertex, least):
    self.r, self.cc, self.vertex, self.least = r, cc, vertex, least

  def subst(self, pairs):
    return Component(sc.sub(self.r, pairs), self.cc, self.vertex, self.least)

  def bag(self):
    v = sc.bvar('v')
    return sc.Bag([v], z3().And(self.vertex(v), self.cc(v) == self.r), Z(v))

  def minimum(self):
    return Z(self.least(self.r))


def unique_node_indices(ndim=1, wrong=False):
  """cc: the connected components of the links (contract of networkx: equal exactly for nodes joined by a chain of edges)"""
  from swirl_fem.core import gather_scatter as gs
  from vf.props.c26 import Shim
  import networkx
  m = z3()

  def body(c):
    F, Q, n, P = m.Ints('F Q n P')
    L = m.Function('link', *[m.IntSort()] * 4)
    f, q, v, r = m.Ints('f q v r')
    c.pc.append(m.And(F >= 1, Q >= 1, n >= 0, P >= 1))
    inl = lambda f, q: m.And(0 <= f, f < F, 0 <= q, q < Q)
    for e in (0, 1):
      c.axs.append(m.ForAll([f, q], m.Implies(inl(f, q), L(f, m.IntVal(e), q) >= 0), patterns=[L(f, m.IntVal(e), q)]))
    linked = sc.named([([f, q], inl(f, q), (Z(L(f, m.IntVal(e), q)),), None) for e in (0, 1)], 'linked')
    cc, least = fun1('component'), fun1('least')

    def components(g):
      if not isinstance(g, Graph):
        raise Unsupported('components of another graph')
      # the graph handed over is that of the links
      x, y = m.Ints('x y')
      bs, cd, (a, b) = g.edges.binders, g.edges.cond, g.edges.val
      a, b = sc.num(a), sc.num(b)
      e0, e1 = (lambda e: L(f, m.IntVal(e), q)), None
      is_link = m.Exists([f, q], m.And(inl(f, q), m.Or(m.And(e0(0) == a, e0(1) == b), m.And(e0(0) == b, e0(1) == a))))
      c.require(m.Implies(cd, is_link), 'every edge of the graph is a link')
      is_edge = m.Exists(bs, m.And(cd, m.Or(m.And(e0(0) == a, e0(1) == b), m.And(e0(0) == b, e0(1) == a))))
      c.require(m.Implies(inl(f, q), is_edge), 'every link is an edge of the graph')
      # contract of connected_components and of the minimum of a non-empty set
      c.axiom([v], m.Implies(linked(v), m.And(least(cc(v)) <= v, linked(least(cc(v))), cc(least(cc(v))) == cc(v))), linked(v))
      c.axiom([f, q], m.Implies(inl(f, q), cc(L(f, m.IntVal(0), q)) == cc(L(f, m.IntVal(1), q))), L(f, m.IntVal(0), q))
      k = sc.bvar('r')
      comp = sc.named([([v], linked(v), (Z(cc(v)),), None)], 'component')
      return sc.Bag([k], comp(k), Component(k, cc, linked, least))

    def tr(x, axes=None):
      return x.transpose(tuple(axes)) if isinstance(x, Links) and axes is not None else sc.unsupported('transpose')
    nx = Shim(None, Graph=Graph, connected_components=components)
    fn = sc.instrument(gs.get_unique_node_indices,
                       shims(nx=nx, np=dict(transpose=tr, swapaxes=lambda x, a, b: x.swapaxes(a, b))))
    k, l = sc.bvar(), sc.bvar()
    i, p = m.Ints('i p')
    if ndim == 1:
      ids = fun1('ids')
      out = fn(sc.Arr1(sc.Seq(n, k, Z(ids(k)))), LinkArg(L, [F, 2, Q]))
      if not isinstance(out, sc.Arr1):
        raise Unsupported('form of the result')
      c.require(out.s.n == n, 'one id per node')
      x, y, rng = ids(i), sc.num(out.s.at(i)), m.And(0 <= i, i < n)
    else:
      ids = fun2('ids')
      n1, n2, at = grid(fn(sc.Arr2(P, n, k, l, Z(ids(k, l))), LinkArg(L, [F, 2, Q])))
      c.require(m.And(n1 == P, n2 == n), 'one id per node')
      x, y, rng = ids(p, i), at(p, i), m.And(0 <= p, p < P, 0 <= i, i < n)
    c.require(m.Implies(m.And(rng, linked(x)), y == (least(cc(x)) if not wrong else x)), 'the id of a linked node is the least of its component')
    c.require(m.Implies(m.And(rng, m.Not(linked(x))), y == x), 'other ids are unchanged')
    return True
  return go(body, 'get_unique_node_indices')


class LinkArg(Links):

  def __len__(self):
    raise Unsupported('len of the links')


# ---------------------------------------------------------------- Premesh.finalize
class SArr:
  """an array of the given shape; entry idx is f(*idx)"""

  def __init__(self, dims, f):
    self.dims, self.f = list(dims), f

  @property
  def ndim(self):
    return len(self.dims)

  @property
  def shape(self):
    return tuple(Z(d) if sc.z3().is_expr(d) else d for d in self.dims)

  @property
  def size(self):
    raise Unsupported('size')

  def __len__(self):
    raise Unsupported('len')

  def at(self, *i):
    return self.f(*i)

  def inside(self, *i):
    return sc.z3().And(*[sc.z3().And(0 <= x, x < d) for x, d in zip(i, self.dims)])

  def vars(self):
    return [sc.bvar('a') for _ in self.dims]

  def bag(self):
    raise Unsupported('iteration over an array')

  def flatten(self):
    return SFlat(self)
  ravel = flatten

  def astype(self, dt):
    return self

  def __getitem__(self, i):
    if not isinstance(i, SArr):
      raise Unsupported('indexing')
    n, vs, m = self.dims[0], i.vars(), sc.z3()
    sc.C().require(m.Implies(m.And(i.inside(*vs), *BOUND), m.And(-n <= i.at(*vs), i.at(*vs) < n)), 'index within the array')
    k = i.ndim

    def f(*a):
      j = i.at(*a[:k])
      return self.at(m.If(j < 0, j + n, j), *a[k:])
    return SArr(i.dims + self.dims[1:], f)

  def _cmp(self, o, op):
    if isinstance(o, SArr) or sc.zexp(o) is None:
      raise Unsupported('comparison')
    return SArr(self.dims, lambda *a: op(self.at(*a), sc.num(o)))

  def __ne__(self, o):
    return self._cmp(o, lambda a, b: a != b)

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)
  __hash__ = None


BOUND = []      # ranges of the axes a vmap has fixed


class SFlat:
  ndim = 1

  def __init__(self, a):
    self.a = a

  def tolist(self):
    return self

  def bag(self):
    vs = self.a.vars()
    return sc.Bag(vs, self.a.inside(*vs), Z(self.a.at(*vs)))


def sym(nm, dims, real=False):
  m = z3()
  f = m.Function(nm, *[m.IntSort()] * len(dims), m.RealSort() if real else m.IntSort())
  return SArr(dims, lambda *a: f(*a))


def isin(a, b):
  m = z3()
  s = sc.b_set(b)
  return SArr(a.dims, lambda *i: s.mem(Z(a.at(*i))))


def vmap(f, in_axes=0, out_axes=0):
  """contract of jax.vmap for a function of one array"""
  m = z3()

  def g(x):
    ax = in_axes[0] if isinstance(in_axes, tuple) else in_axes
    if not isinstance(x, SArr) or not isinstance(ax, int) or not isinstance(out_axes, int):
      raise Unsupported('vmap')
    ax %= x.ndim
    c = sc.bvar('c')
    BOUND.append(m.And(0 <= c, c < x.dims[ax]))
    try:
      r = f(SArr(x.dims[:ax] + x.dims[ax + 1:], lambda *a: x.at(*a[:ax], c, *a[ax:])))
      if not isinstance(r, SArr):
        raise Unsupported('result of a mapped function')
    finally:
      BOUND.pop()
    o = out_axes % (r.ndim + 1)
    return SArr(r.dims[:o] + [x.dims[ax]] + r.dims[o:],
                lambda *a: m.substitute(r.at(*a[:o], *a[o + 1:]), (c, a[o])) if sc.z3().is_expr(a[o]) else sc.unsupported('index'))
  return g


def gather_contract(u, indices, fill_value=-1):
  if not isinstance(u, SArr) or not isinstance(indices, SArr) or u.ndim != 1 or sc.zexp(fill_value) is None:
    raise Unsupported('gather')
  m, vs, n = z3(), indices.vars(), u.dims[0]
  j = indices.at(*vs)
  sc.C().require(m.Implies(m.And(indices.inside(*vs), *BOUND), m.Or(j == -1, m.And(0 <= j, j < n))), 'gather: indices in range or padding')
  return SArr(indices.dims, lambda *a: m.If(indices.at(*a) == -1, sc.num(fill_value), u.at(indices.at(*a))))


class Slice:
  """entry p along the first axis, as a device sees it"""

  def __init__(self, v, p):
    self.v, self.p = v, p


def slices(x, p):
  if isinstance(x, dict):
    return {k: slices(v, p) for k, v in x.items()}
  return None if x is None else Slice(x, p)


class Self:
  """a premesh with symbolic fields; everything else comes from the class"""

  def __init__(self, cls, **kw):
    self.__dict__.update(kw)
    self.__dict__['_cls'] = cls

  def __getattr__(self, nm):
    a = inspect.getattr_static(self._cls, nm)
    if isinstance(a, property):
      return a.fget(self)
    if inspect.isfunction(a):
      return sc.instrument(a, self._patch).__get__(self)
    raise Unsupported(nm)


def finalize(partitioned, periodic, wrong=False):
  """Premesh.finalize against the contracts of gather, group_by_partitions, get_local_elements, get_unique_node_indices,
  get_exchange_indices and Mesh.create (each proved on its own), and of jax.vmap, jax.pmap and np.isin"""
  from swirl_fem.core import premesh as pm
  from swirl_fem.core import gather_scatter as gs
  from vf.props.c26 import Shim
  import jax
  m = z3()

  def body(c):
    n, d, ne, q, nf, fq = m.Ints('n d ne q nf fq')
    e, i, j, a, b, k, p, x, y = m.Ints('e i j a b k p x y')
    c.pc.append(m.And(n >= 1, d >= 1, ne >= 1, q >= 1, nf >= 0, fq >= 1))
    X = sym('X', [n, d], real=True)
    el = sym('el', [ne, q])
    facets = sym('facets', [nf, fq])
    part = sym('part', [ne])
    inn = lambda t: m.And(0 <= t, t < n)
    c.axiom([e, a], m.Implies(el.inside(e, a), inn(el.at(e, a))), el.at(e, a))
    c.axiom([e, a], m.Implies(facets.inside(e, a), inn(facets.at(e, a))), facets.at(e, a))
    c.axiom([e], m.Implies(part.inside(e), part.at(e) >= 0), part.at(e))
    links = object() if periodic else None
    rep = fun1('rep') if periodic else (lambda t: t)
    if periodic:        # from the contract of get_unique_node_indices: the least of the component, or the node itself
      c.axiom([x], m.And(m.Implies(x >= 0, m.And(0 <= rep(x), rep(x) <= x)), m.Implies(x == -1, rep(x) == -1)), rep(x))

    def unique_ids(node_indices, periodic_links):
      if not isinstance(node_indices, SArr) or periodic_links is not links:
        raise Unsupported('get_unique_node_indices of something else')
      return SArr(node_indices.dims, lambda *t: rep(node_indices.at(*t)))

    def group(partitions):
      if not isinstance(partitions, SArr) or partitions.ndim != 1:
        raise Unsupported('group_by_partitions of something else')
      P, K = c.const('P'), c.const('K')
      G, pos = c.fn('G', 2), c.fn('pos', 1)
      w, ne_ = c.fn('w', 0)(), partitions.dims[0]
      c.require(ne_ >= 1, 'precondition of group_by_partitions')
      c.require(m.Implies(m.And(0 <= e, e < ne_), partitions.at(e) >= 0), 'precondition of group_by_partitions')
      c.axiom([], m.And(P >= 1, K >= 0, 0 <= w, w < ne_, partitions.at(w) == P - 1))
      c.axiom([p, k], m.Implies(m.And(0 <= p, p < P, 0 <= k, k < K), m.Or(G(p, k) == -1, m.And(
          0 <= G(p, k), G(p, k) < ne_, partitions.at(G(p, k)) == p, pos(G(p, k)) == k))), G(p, k))
      c.axiom([e], m.Implies(m.And(0 <= e, e < ne_), m.And(partitions.at(e) < P, 0 <= pos(e), pos(e) < K, G(partitions.at(e), pos(e)) == e)),
              partitions.at(e))
      c.cache['G'] = G, pos
      return SArr([P, K], lambda p, k: G(p, k))

    def local(elements):
      if not isinstance(elements, SArr) or elements.ndim != 3:
        raise Unsupported('get_local_elements of something else')
      P, K, q_ = elements.dims
      N = c.const('N')
      I, L = c.fn('ids', 2), c.fn('loc', 3)
      wk, wa = c.fn('wk', 2), c.fn('wa', 2)
      c.require(m.And(P >= 1), 'precondition of get_local_elements')
      c.require(m.Implies(elements.inside(p, k, a), elements.at(p, k, a) >= -1), 'precondition of get_local_elements')
      c.axiom([], N >= 0)
      c.axiom([p, x], m.Implies(m.And(0 <= p, p < P, 0 <= x, x < N, I(p, x) != -1), m.And(
          elements.inside(p, wk(p, x), wa(p, x)), elements.at(p, wk(p, x), wa(p, x)) == I(p, x),
          L(p, wk(p, x), wa(p, x)) >= -1)), I(p, x))
      c.axiom([p, x, y], m.Implies(m.And(0 <= p, p < P, 0 <= x, x < y, y < N, I(p, x) != -1), I(p, x) != I(p, y)),
              m.MultiPattern(I(p, x), I(p, y)))
      v = elements.at(p, k, a)
      c.axiom([p, k, a], m.Implies(elements.inside(p, k, a), m.If(v == -1, L(p, k, a) == -1, m.And(
          0 <= L(p, k, a), L(p, k, a) < N, I(p, L(p, k, a)) == v))), L(p, k, a))
      return SArr([P, N], lambda p, x: I(p, x)), SArr([P, K, q_], lambda p, k, a: L(p, k, a))
    xc = []

    def exchange(node_indices):
      if not isinstance(node_indices, SArr):
        raise Unsupported('get_exchange_indices of something else')
      gi, ui = object(), None if partitioned else object()
      xc.append((gi, ui, node_indices))
      return gi, ui
    made = []
    opaque = object()

    def create(**kw):
      made.append(kw)
      return made

    def pmap(f, *args, **kws):
      if args or kws:
        raise Unsupported('pmap with options')
      P = c.const('device')

      def g(**kw):
        def dims(v):
          return [q for w in v.values() for q in dims(w)] if isinstance(v, dict) else [v.dims[0]] if isinstance(v, SArr) else []
        ds = [q for v in kw.values() for q in dims(v)]
        c.require(m.And(*[q == ds[0] for q in ds[1:]]), 'pmap: leading axes of one size')
        c.pc.append(m.And(0 <= P, P < ds[0]))
        c.cache['device'] = P, ds[0]
        return f(**{k: slices(v, P) for k, v in kw.items()})
      return g

    def tree_map_(f, t, *rest):
      if rest or not isinstance(t, dict):
        raise Unsupported('tree_map')
      return {k: f(v) for k, v in t.items()}
    patch = shims(
        np=dict(isin=isin, arange=lambda n_, *a, **k: SArr([sc.num(n_)], lambda t: t) if not a else sc.unsupported('arange')),
        tree_map=tree_map_, Mesh=Shim(None, create=create),
        gather_scatter=Shim(gs, gather=gather_contract, group_by_partitions=group, get_local_elements=local,
                            get_unique_node_indices=unique_ids, get_exchange_indices=exchange))
    patch['jax'] = Shim(jax, vmap=vmap, pmap=pmap, tree=Shim(None, map=tree_map_), tree_util=Shim(None, tree_map=tree_map_),
                        tree_map=tree_map_)
    me = Self(pm.Premesh, order=opaque, gridpoints_1d=opaque, node_coords=X, elements=el,
              physical_groups={'wall': facets}, periodic_links=links, partitions=part if partitioned else None, _patch=patch)
    f = sc.instrument(inspect.getattr_static(pm.Premesh, 'finalize'), patch)
    out = f(me, **(dict(axis_name='i') if partitioned else {}))
    if out is not made or len(made) != 1 or len(xc) != 1:
      raise Unsupported('form of the result')
    kw = dict(made[0])
    if partitioned:
      dev, P = c.cache['device']
      dv = lambda v: v if not isinstance(v, Slice) else v.v if v.p is dev else sc.unsupported('slice')
      kw = {k: {g: dv(w) for g, w in v.items()} if isinstance(v, dict) else dv(v) for k, v in kw.items()}
    if kw.pop('axis_name', None) != ('i' if partitioned else None) or kw.pop('gridpoints_1d', None) is not opaque:
      raise Failed('axis name or grid points of the mesh', model=None)
    gi, ui, xid = xc[0]
    if kw.pop('exchange_gather_indices', None) is not gi or kw.pop('exchange_unique_indices', None) is not ui:
      raise Failed('exchange indices of the mesh')
    C, L, I, M = kw.pop('node_coords'), kw.pop('elements'), kw.pop('node_indices'), kw.pop('physical_masks')
    if kw or not all(isinstance(v, SArr) for v in (C, L, I)) or not isinstance(M, dict):
      raise Unsupported('form of the result')
    if set(M) != {'wall'}:
      raise Failed('groups of the mesh')
    M = M['wall']
    same = lambda u, v: m.And(*[s == t for s, t in zip(u.dims, v.dims)]) if u.ndim == v.ndim else m.BoolVal(False)
    ex = lambda v: m.Exists([k, a], m.And(facets.inside(k, a), rep(facets.at(k, a)) == v))
    if not partitioned:
      c.require(m.And(same(C, X), same(L, el), same(I, SArr([n], None)), same(M, I), same(xid, I)), 'shapes of the mesh')
      c.require(m.Implies(X.inside(i, x), C.at(i, x) == X.at(i, x)), 'coordinates unchanged')
      c.require(m.Implies(el.inside(e, a), L.at(e, a) == el.at(e, a)), 'elements unchanged')
      c.require(m.Implies(inn(i), m.And(I.at(i) == rep(i), xid.at(i) == I.at(i))), 'node ids are the representatives')
      c.require(m.Implies(inn(i), M.at(i) == ex(rep(i) if not wrong else i + 1)), 'the mask holds the nodes of the group and their images')
      return True
    if L.ndim != 3 or I.ndim != 2:
      raise Unsupported('form of the result')
    K, N = L.dims[1], I.dims[1]
    c.require(m.And(same(C, SArr([P, N, d], None)), same(L, SArr([P, K, q], None)), same(I, SArr([P, N], None)), same(M, I), same(xid, I)),
              'shapes of the mesh')
    c.require(m.Implies(m.And(0 <= e, e < ne), part.at(e) < P), 'every partition has a device')
    G, pos = c.cache['G']
    row, al = m.And(0 <= p, p < P, 0 <= k, k < K), m.And(0 <= a, a < q)
    g = G(p, k)
    # row k of partition p is element g of the original mesh, or padding; pos is the inverse
    c.require(m.Implies(row, m.Or(g == -1, m.And(0 <= g, g < ne, part.at(g) == p, pos(g) == k))), 'rows are elements of the partition')
    c.require(m.Implies(m.And(0 <= e, e < ne), m.And(0 <= pos(e), pos(e) < K, G(part.at(e), pos(e)) == e)), 'every element has a row')
    t = L.at(p, k, a)
    c.require(m.Implies(m.And(row, al, g == -1), t == -1), 'padding rows hold padding')
    c.require(m.Implies(m.And(row, al, g != -1), m.And(0 <= t, t < N)), 'element entries are local nodes')
    c.require(m.Implies(m.And(row, al, g != -1), I.at(p, t) == (rep(el.at(g, a)) if not wrong else el.at(g, a) + 1)), 'ids of the element nodes')
    c.require(m.Implies(m.And(row, al, g != -1, 0 <= x, x < d), C.at(p, t, x) == X.at(el.at(g, a), x)), 'coordinates of the element nodes')
    nd = m.And(0 <= p, p < P, 0 <= x, x < N)
    c.require(m.Implies(m.And(nd, I.at(p, x) != -1), M.at(p, x) == ex(I.at(p, x))), 'the mask holds the nodes of the group and their images')
    c.require(m.Implies(nd, xid.at(p, x) == I.at(p, x)), 'the exchange is that of the node ids')
    c.require(m.Implies(m.And(nd, I.at(p, x) != -1), m.Exists([k, a], m.And(0 <= k, k < K, 0 <= a, a < q, L.at(p, k, a) != -1,
              I.at(p, L.at(p, k, a)) == I.at(p, x)))), 'every node belongs to an element of the partition')
    return True
  return go(body, 'Premesh.finalize')


class Opaque:
  """an array nothing is known of but its shape"""

  def __init__(self, nm, shape):
    self.nm, self.shape = nm, shape
    self.ndim = len(shape)

  def __len__(self):
    return self.shape[0]

  def __repr__(self):
    return self.nm


def create(which, wrong=False):
  """Mesh.create / Premesh.create store exactly the arrays they are given (parametric: the arrays are opaque)"""
  from swirl_fem.core import mesh, premesh
  from types import SimpleNamespace
  cls = dict(Mesh=mesh.Mesh, Premesh=premesh.Premesh)[which]
  names = dict(Mesh=['node_indices', 'exchange_gather_indices', 'exchange_unique_indices'], Premesh=['periodic_links', 'partitions'])[which]
  masks = dict(Mesh='physical_masks', Premesh='physical_groups')[which]
  got = []

  def rec(**kw):
    got.append(kw)
    return got
  for ndim, pts in ((1, 2), (1, 3), (2, 2), (2, 4), (3, 2), (3, 3)):
    kw = dict(node_coords=Opaque('coords', (11, ndim)), elements=Opaque('elements', (5, pts ** ndim)),
              gridpoints_1d=SimpleNamespace(num_points=pts), **{k: Opaque(k, (7,)) for k in names})
    kw[masks] = {'g': Opaque('group', (11,))}
    if which == 'Mesh':
      kw['axis_name'] = 'i'
    got.clear()
    out = inspect.getattr_static(cls, 'create').__func__(rec, **kw)
    if out is not got or len(got) != 1:
      raise Unsupported('form of the result')
    have = dict(got[0])
    if have.pop('order', None) != pts - 1:
      raise Failed('order of the mesh')
    if set(have) != set(kw):
      raise Unsupported('other fields')
    for k, v in kw.items():
      w = have[k]
      if wrong and k == 'elements':
        v = kw['node_coords']
      if k == masks:
        ok = isinstance(w, dict) and set(w) == {'g'} and w['g'] is v['g']
      else:
        ok = w is v or isinstance(v, str) and w == v
      if not ok:
        raise (Failed if isinstance(w, Opaque) or w is None else Unsupported)(f'field {k} is {w}')
  return 'opaque arrays'


def no_links(wrong=False):
  from swirl_fem.core import gather_scatter as gs
  for links in (None, Opaque('no links', (0, 2, 3)), Opaque('no links', (0, 2, 1))):
    ids = Opaque('ids', (7,))
    if gs.get_unique_node_indices(ids, links) is not ids:
      raise Unsupported('not the array itself')
  return 'opaque arrays'

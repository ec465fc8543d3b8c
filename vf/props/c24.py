"""C24: mesh partitioning assigns every element one valid partition and nothing else."""
NOTE = ('partition is recompiled from its source with both loops cut at inductive invariants and proved for every mesh (any number of elements, '
        'nodes and any connectivity) against contracts of networkx (graph of edges, distances up to the cutoff) and pymetis (one number '
        'in range per vertex): the adjacency handed over joins exactly the distinct elements sharing a node, and only the partition field changes.')
TECHNIQUE = 'loop-invariant verification conditions from the source of partition, with contracts for networkx and pymetis; back end z3 (quantified)'

import itertools
import numpy as np
from vf.core import Failed, Unsupported
from vf import pyvc
from vf.pyvc import Z, B

F = ['mesh_partitioner.partition']


class World:
  """ghost state: the connectivity as an uninterpreted relation"""

  def __init__(self):
    z = pyvc.z3()
    self.z = z
    self.E, self.N, self.k = z.Int('E'), z.Int('N'), z.Int('num_partitions')
    self.inc = z.Function('inc', z.IntSort(), z.IntSort(), z.BoolSort())
    self.fresh = itertools.count()

  def assume(self, c):
    z = self.z
    e, i = z.Ints('e i')
    c.assume(z.And(self.E >= 1, self.N >= 1, self.k >= 1))
    c.assume(z.ForAll([e, i], z.Implies(self.inc(e, i), z.And(0 <= e, e < self.E, 0 <= i, i < self.N)), patterns=[self.inc(e, i)]))

  def new(self, nm):
    return self.z.Int(f'{nm}{next(self.fresh)}')

  def share(self, s, t):
    z = self.z
    i = z.Int('i_sh')
    return z.Exists([i], z.And(self.inc(s, i), self.inc(t, i)))


class Elem:
  """one element: iterating it runs the loop body once for an arbitrary node of it"""

  def __init__(self, w, e):
    self.w, self.e = w, e

  def __iter__(self):
    i = self.w.new('node')
    pyvc.CTX.assume(self.w.inc(self.e, i))
    self.w.bound.append((i, self.w.inc(self.e, i)))
    yield Z(i)

  def tolist(self):
    return self


class Elements:

  def __init__(self, w):
    self.w = w
    self.shape = (Z(w.E), Z(w.new('npe')))

  def __iter__(self):
    raise Unsupported('iteration over the elements outside a loop')

  def __getitem__(self, e):
    return Elem(self.w, pyvc.zexp(e))

  def tolist(self):
    return self


class Graph:
  """contract of networkx.Graph: an undirected graph given by its edges"""

  def __init__(self, w, edge=None):
    z = w.z
    self.w = w
    self.edge = edge or (lambda a, b: z.BoolVal(False))

  def add_edges_from(self, gen):
    w, z = self.w, self.w.z
    w.bound = []
    n = 0
    old = self.edge
    for pair in gen:
      a, b = [pyvc.zexp(q) for q in pair]
      n += 1
      vs = list(w.bound)
      if not vs:
        raise Unsupported('edges')

      def edge(x, y, old=old, a=a, b=b, vs=vs):
        f = [w.new('q') for _ in vs]
        sub = [(v, q) for (v, _), q in zip(vs, f)]
        g = z.And(*[z.substitute(c, *sub) for _, c in vs])
        aa, bb = z.substitute(a, *sub), z.substitute(b, *sub)
        return z.Or(old(x, y), z.Exists(f, z.And(g, z.Or(z.And(x == aa, y == bb), z.And(x == bb, y == aa)))))
      self.edge = edge
    if n != 1:
      raise Unsupported('edges')

  def add_edge(self, a, b):
    raise Unsupported('single edges')


class Paths:
  """contract of single_source_shortest_path_length(g, s, cutoff): distances of the vertices within the cutoff"""

  def __init__(self, g, s, cutoff):
    self.g, self.s, self.cutoff = g, s, cutoff

  def items(self):
    w, z, e, s = self.g.w, self.g.w.z, self.g.edge, self.s
    if self.cutoff is not None and not isinstance(self.cutoff, int):
      raise Unsupported('cutoff')
    t, d = w.new('t'), w.new('d')
    m = z.Int('m_path')
    two = z.Exists([m], z.And(e(s, m), e(m, t)))
    dist = {0: t == s, 1: z.And(t != s, e(s, t)), 2: z.And(t != s, z.Not(e(s, t)), two)}
    cs = [z.And(d == k, dist[k]) for k in range(min(2 if self.cutoff is None else self.cutoff, 2) + 1)]
    if self.cutoff is None or self.cutoff > 2:   # farther vertices: nothing more is said about them
      cs.append(z.And(d >= 3, t != s, z.Not(e(s, t)), z.Not(two), *([] if self.cutoff is None else [d <= self.cutoff])))
    pyvc.CTX.assume(z.Or(*cs))
    w.item = (t, d)
    yield Z(t), Z(d)

  def keys(self):
    for t, _ in self.items():
      yield t
  __iter__ = keys


class Enum:

  def __init__(self, x):
    self.x = x


class Adj(dict):
  """mapping source -> neighbours, complete for the sources below `upto`"""
  upto = None


class Loop(pyvc.Loops):

  def __init__(self, w):
    super().__init__()
    self.w = w
    self.j = {}
    self.state = {}

  def kind(self, it, loc, names):
    gs = [x for x in names if isinstance(loc.get(x), Graph)]
    ds = [x for x in names if isinstance(loc.get(x), (dict, list))]
    return ('graph', gs[0]) if gs else ('adj', ds[0]) if len(ds) == 1 else (None, None)

  def bipartite(self, upto):
    w, z = self.w, self.w.z

    def edge(a, b):
      return z.Or(z.And(0 <= a, a < upto, w.inc(a, b - w.E)), z.And(0 <= b, b < upto, w.inc(b, a - w.E)))
    return edge

  def entry(self, k, it, loc, names):
    w, z, c = self.w, self.w.z, pyvc.CTX
    role, name = self.kind(it, loc, names)
    j = self.j[k] = z.Int(f'j{k}')
    c.assume(z.And(0 <= j, j <= w.E))
    if isinstance(it, Enum) and isinstance(it.x, Elements):
      self.state[k] = (role, name, 'enum')
    elif isinstance(it, Elements):
      self.state[k] = (role, name, 'elems')
    elif isinstance(it, SymRange):
      c.require(z.And(it.lo == 0, it.hi == w.E), 'the loop runs over all elements')
      self.state[k] = (role, name, 'range')
    else:
      raise Unsupported('loop')
    if role == 'graph':
      a, b = z.Ints('a b')
      c.require(z.ForAll([a, b], z.Not(loc[name].edge(a, b))), 'the graph starts without edges')
      self.graph = Graph(w, self.bipartite(j))
      self.g0 = name
      return {name: self.graph}
    if role == 'adj':
      if len(loc[name]):
        raise Failed('adjacency not empty before the loop')
      self.adj = name
      d = Adj() if isinstance(loc[name], dict) else AdjList()
      d.upto = j
      return {name: d}
    raise Unsupported('loop without a role')

  def element(self, k, it):
    j, how = self.j[k], self.state[k][2]
    pyvc.CTX.assume(j < self.w.E)
    return (Z(j), Elem(self.w, j)) if how == 'enum' else Elem(self.w, j) if how == 'elems' else Z(j)

  def step(self, k, loc):
    w, z, c = self.w, self.w.z, pyvc.CTX
    role, name, _ = self.state[k]
    j = self.j[k]
    if role == 'graph':
      a, b = z.Ints('a b')
      x, y = z.Int('x_e'), z.Int('y_e')
      g, want = loc[name].edge, self.bipartite(j + 1)
      c.require(z.Implies(g(x, y), want(x, y)), 'edges join an element only with its own nodes')
      c.require(z.Implies(want(x, y), g(x, y)), 'every node of the element is joined to it')
      return
    d = loc[name]
    if isinstance(d, Adj):
      if len(d) != 1:
        raise Failed(f'{len(d)} entries of the adjacency in one iteration')
      (key, val), = d.items()
      c.require(pyvc.zexp(key) == j, 'the adjacency entry is that of the element of the iteration')
    else:
      if len(d.app) != 1:
        raise Failed('adjacency list')
      val = d.app[0]
    val = list(val)
    if not hasattr(w, 'item'):
      raise Unsupported('neighbours')
    t, _ = w.item
    spec = z.And(0 <= t, t < w.E, t != j, w.share(j, t))
    if len(val) == 1:
      c.require(pyvc.zexp(val[0]) == t, 'a vertex within reach is entered as itself')
      c.require(spec, 'every neighbour is a distinct element sharing a node')
    elif not val:
      c.require(z.Not(spec), 'every distinct element sharing a node is a neighbour')
    else:
      raise Failed('a neighbour is entered several times')
    self.checked = True

  def exit(self, k, it, loc, names):
    w, z, c = self.w, self.w.z, pyvc.CTX
    role, name, _ = self.state[k]
    c.assume(self.j[k] == w.E)
    if role == 'graph':
      return {name: Graph(w, self.bipartite(self.j[k]))}
    d = Adj() if isinstance(loc[name], dict) else AdjList()
    d.upto = self.j[k]
    return {name: d}


class AdjList(list):
  upto = None

  def __init__(self):
    super().__init__()
    self.app = []

  def append(self, v):
    self.app.append(v)


class SymRange:

  def __init__(self, *a):
    z = pyvc.z3()
    es = [pyvc.zexp(x) for x in a]
    self.lo, self.hi = (z.IntVal(0), es[0]) if len(es) == 1 else es[:2]


def verify(wrong=None):
  from swirl_fem.common import mesh_partitioner as mp
  from vf.props.c26 import Shim
  reached = dict(post=0, adj=0)

  def run(ctx):
    w = World()
    w.assume(ctx)
    vc = Loop(w)
    z = w.z
    got = {}

    def paths(g, s, cutoff=None):
      p = Paths(g, pyvc.zexp(s), cutoff)
      # every element sharing a node with the source is among the items of the contract (so the test of the items decides about it)
      t, m = z.Int('t_c'), z.Int('m_c')
      if cutoff is not None and cutoff < 2:
        raise Failed(f'neighbours are sought up to distance {cutoff}: elements sharing a node are at distance 2')
      e = g.edge
      ctx.require(z.Implies(z.And(w.inc(p.s, m), w.inc(t, m)), z.And(e(p.s, m + w.E), e(m + w.E, t))),
                  'elements sharing a node are joined through it')
      return p
    parts = [3, 1, 2]

    def part_graph(nparts, adjacency=None, **kw):
      if kw:
        raise Unsupported(f'pymetis options {sorted(kw)}')
      got.update(n=nparts, adj=adjacency)
      return 7, list(parts)

    class Pm:
      num_elements = Z(w.E)
      num_nodes = Z(w.N)
      elements = Elements(w)

      def replace(self, **kw):
        got['replace'] = kw
        return ('premesh', self)

      def __getattr__(self, n):
        raise Unsupported(f'premesh.{n}')
    pm = Pm()
    patch = dict(nx=Shim(None, Graph=lambda: Graph(w), single_source_shortest_path_length=paths),
                 pymetis=Shim(None, part_graph=part_graph), range=lambda *a: SymRange(*a), enumerate=Enum)
    f = pyvc.instrument(mp.partition, vc, patch=patch)
    r = f(pm, Z(w.k))
    reached['post'] += 1
    if not (isinstance(r, tuple) and r[0] == 'premesh' and r[1] is pm) or set(got.get('replace', {})) != {'partitions'}:
      raise Failed(f'the result is not the premesh with its partitions replaced (fields {sorted(got.get("replace", {}))})')
    p = got['replace']['partitions']
    if not isinstance(p, np.ndarray) or p.dtype.kind not in 'iu' or p.tolist() != parts:
      raise Failed(f'partitions {p!r} are not the numbers pymetis returned, as an integer array')
    ctx.require(pyvc.zexp(got['n']) == w.k, 'the requested number of partitions is passed on')
    a = got['adj']
    if not isinstance(a, (Adj, AdjList)) or a.upto is None:
      raise Failed('the adjacency handed to the partitioner is not the one computed')
    ctx.require(a.upto == (w.E if wrong is None else w.E + 1), 'the adjacency covers all elements')

  n = pyvc.explore(run)
  if not reached['post']:
    raise Failed('vacuous: postcondition not reached')
  return f'{n} paths'


def vacuity():
  """a false claim about the neighbours must fail: no two elements share a node"""
  z = pyvc.z3()

  class L(Loop):
    pass
  saved = World.share
  World.share = lambda self, s, t: z.BoolVal(False)
  try:
    return verify()
  finally:
    World.share = saved


def connectivity(rng, els, ndim, k):
  """runs partition on one mesh, intercepting the call of the partitioner; returns a description of a breach"""
  import pymetis
  from swirl_fem.common import mesh_partitioner as mp
  from swirl_fem.core.premesh import Premesh
  nn = int(els.max()) + 1
  pm = Premesh.create(node_coords=rng.rand(nn, ndim), elements=els, physical_groups={'a': els[:1, :2]}, periodic_links=None)
  before = {f: (None if getattr(pm, f) is None else np.array(getattr(pm, f))) for f in ('node_coords', 'elements')}
  seen = {}
  real = pymetis.part_graph

  def spy(nparts, adjacency=None, xadj=None, adjncy=None, **kw):
    if adjacency is not None and not hasattr(adjacency, 'adj_starts'):
      seen['adj'] = {int(e): [int(q) for q in adjacency[e]] for e in (adjacency if isinstance(adjacency, dict) else range(len(adjacency)))}
    elif xadj is not None:
      seen['adj'] = {e: [int(q) for q in adjncy[xadj[e]:xadj[e + 1]]] for e in range(len(xadj) - 1)}
    else:
      seen['adj'] = {e: [int(q) for q in adjacency.adjacent[adjacency.adj_starts[e]:adjacency.adj_starts[e + 1]]]
                     for e in range(len(adjacency.adj_starts) - 1)}
    seen['n'] = nparts
    return real(nparts, adjacency=adjacency, xadj=xadj, adjncy=adjncy, **kw)
  pymetis.part_graph = spy
  try:
    out = mp.partition(pm, k)
  finally:
    pymetis.part_graph = real
  sets = [set(e.tolist()) for e in els]
  if 'adj' in seen:
    if sorted(seen['adj']) != list(range(len(els))):
      return f'adjacency lists {sorted(seen["adj"])}'
    for e, nb in seen['adj'].items():
      want = sorted(t for t in range(len(els)) if t != e and sets[t] & sets[e])
      if sorted(nb) != want:
        return f'element {e} is joined with {sorted(nb)} instead of {want}'
    if seen['n'] != k:
      return f'{seen["n"]} partitions requested'
  p = np.asarray(out.partitions)
  if p.shape != (len(els),) or p.dtype.kind not in 'iu' or p.min() < 0 or p.max() >= k:
    return f'partitions {out.partitions!r}'
  for f, v in before.items():
    if not np.array_equal(getattr(out, f), v):
      return f'{f} changed'
  if out.periodic_links is not None or set(out.physical_groups) != {'a'} or not np.array_equal(out.physical_groups['a'], els[:1, :2]) \
     or out.order != pm.order or out.gridpoints_1d is not pm.gridpoints_1d:
    return 'other fields changed'


def all_meshes():
  """every mesh of up to 3 line elements on 5 nodes: the bounded stand-in"""
  rng = np.random.RandomState(0)
  pairs = list(itertools.combinations(range(5), 2))
  n = 0
  for E in (1, 2, 3):
    for els in itertools.product(pairs, repeat=E):
      els = np.array(els)
      r = connectivity(rng, els, 1, 1 + n % 3)
      if r:
        raise Failed(r, model=dict(elements=els, num_partitions=1 + n % 3))
      n += 1
  return f'{n} meshes'


def prove(chk):
  chk.trust('z3', 'vf/pyvc.py (loop cutting)', 'contract of networkx.Graph and single_source_shortest_path_length',
            'contract of pymetis.part_graph: one number in [0, nparts) per vertex', 'Premesh.replace (dataclass)')
  chk.assume('elements are lists of node numbers in [0, num_nodes); at least one element')
  chk.oblige('partition: adjacency exact and only the partitions change, every mesh', verify, 'z3', F,
             stand_in=('every mesh of at most 3 line elements on 5 nodes', all_meshes))
  chk.canary('adjacency of one element more', lambda: verify(wrong=1), 'z3')
  chk.canary('no elements are neighbours', vacuity, 'z3')


def contracts(chk):
  """small meshes of every connectivity: adjacency intercepted, real pymetis, finalization accepts"""
  from swirl_fem.common import mesh_partitioner as mp
  from swirl_fem.common import premesh_commons as pc
  rng = np.random.RandomState(chk.seed)
  cases = []
  for els in [[[0, 1]], [[0, 1], [1, 2]], [[0, 1], [2, 3]], [[0, 1], [1, 2], [2, 0]], [[3, 1], [1, 2], [0, 4], [4, 3], [1, 0]]]:
    for k in (1, 2, 3):
      cases.append((np.array(els), 1, k))
  for _ in range(chk.n(12, 150)):
    ndim = rng.randint(1, 3)
    npe = 2 ** ndim
    E = rng.randint(1, 9)
    N = npe + rng.randint(0, 3 * E + 1)
    els = np.stack([rng.permutation(N)[:npe] for _ in range(E)])
    cases.append((els, ndim, int(rng.randint(1, 5))))
  for els, ndim, k in cases:
    def run(els=els, ndim=ndim, k=k):
      return connectivity(rng, els, ndim, k)
    chk.case('connectivity', run, dict(elements=els, num_partitions=k))
  for ndim, n, per, k in [(1, 4, (), 2), (2, 3, (), 3), (2, 2, (), 2), (2, 3, (0,), 2), (1, 5, (0,), 2)] + ([(3, 2, (), 4)] if chk.thorough else []):
    def fin(ndim=ndim, n=n, per=per, k=k):
      pm = pc.unit_cube_mesh(n, ndim=ndim, periodic_dims=per)
      out = mp.partition(pm, k)
      for f in ('physical_groups', 'periodic_links', 'node_coords', 'elements'):
        a, b = getattr(pm, f), getattr(out, f)
        if f == 'physical_groups':
          same = set(a) == set(b) and all(np.array_equal(a[q], b[q]) for q in a)
        else:
          same = (a is None) == (b is None) and (a is None or np.array_equal(a, b))
        if not same:
          return f'{f} changed'
      if per:
        return                       # periodicity within a partition is documented as unsupported by the finalization
      mesh = out.finalize(axis_name='i')
      mesh = mesh[0] if isinstance(mesh, tuple) else mesh
      if mesh is None:
        return 'finalization'
    chk.case('finalization of the partitioned mesh', fin, dict(ndim=ndim, n=n, periodic=per, partitions=k))

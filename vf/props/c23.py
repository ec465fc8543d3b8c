"""C23: reading a mesh file preserves geometry, orientation and periodicity."""
NOTE = ('_get_periodic_links is recompiled from its source with both loops cut at an inductive invariant (links so far = the facets declared by the '
        'entities so far, in order) and proved for every number of entities, facets and declared node pairs; read is proved for every number of '
        'nodes and cells, calling it by contract. meshio (file parsing) is a dependency contract; runtime contracts write real files and read them back.')
TECHNIQUE = 'loop-invariant verification conditions from the source of _get_periodic_links and read, contract of meshio; back end z3'

import contextlib, io, itertools, os, shutil, tempfile
import numpy as np
from vf.core import Failed, Unsupported, locate
from vf import pyvc
from vf.pyvc import Z, B

F = ['mesh_reader.read', 'mesh_reader._get_periodic_links']
CELL = {0: 'vertex', 1: 'line', 2: 'quad', 3: 'hexahedron'}
# corners of the reference cells in the order the Gmsh manual gives
GMSH = {0: [()], 1: [(0,), (1,)], 2: [(0, 0), (1, 0), (1, 1), (0, 1)],
        3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


def order(d):
  """positions in a Gmsh cell of the corners in tensor-product order (first axis slowest)"""
  return [GMSH[d].index(c) for c in itertools.product((0, 1), repeat=d)]


# ---------------------------------------------------------------- _get_periodic_links, unbounded
class Facet:
  """one facet of the file: its nodes"""

  def __init__(self, nodes):
    self.nodes = nodes

  def __iter__(self):
    return iter(self.nodes)

  def __len__(self):
    return len(self.nodes)

  def tolist(self):
    return list(self.nodes)


class Facets:

  def __len__(self):
    raise Unsupported('number of facets used')

  def tolist(self):
    return self


class Pairs:
  """node pairs declared by an entity; as a dict: a partial map (membership and value uninterpreted)"""

  def __init__(self, w, k):
    self.w, self.k = w, k

  def tolist(self):
    return self


class Map:

  def __init__(self, p):
    self.p, self.w = p, p.w

  def __contains__(self, x):
    return pyvc.CTX.branch(self.w.dom(self.p.k, pyvc.zexp(x)))

  def __getitem__(self, x):
    e = pyvc.zexp(x)
    if not pyvc.CTX.branch(self.w.dom(self.p.k, e)):
      raise Failed('a node that the entity does not declare is looked up')
    return Z(self.w.val(self.p.k, e))

  def get(self, x, default=None):
    return self[x] if x in self else default


class Link:
  """np.stack of a facet and its targets"""

  def __init__(self, src, tgt):
    self.src, self.tgt = src, tgt


class Result:

  def __init__(self, order=None, links=None):
    self.order, self.links = order, links

  def __getitem__(self, ix):
    if not (isinstance(ix, tuple) and ((len(ix) == 2 and ix[0] is Ellipsis) or (len(ix) == 3 and ix[0] == ix[1] == slice(None)))):
      raise Unsupported('indexing of the links')
    p = list(ix[-1])
    return Result([q for q in (p if self.order is None else [self.order[j] for j in p])], self.links)

  def astype(self, t):
    if np.dtype(t).kind not in 'iu':
      raise Failed(f'links of type {t}')
    return self


class Links:
  """ghost: the links of the first `at` positions (entity-major); then what was appended in this iteration"""

  def __init__(self, at):
    self.at, self.app = at, []

  def append(self, x):
    self.app.append(x)

  def __iadd__(self, xs):
    self.app.extend(xs)
    return self

  def __bool__(self):
    return pyvc.CTX.branch(self.w.nonempty)


class Dummy(Exception):
  pass


class World:

  def __init__(self, ndim):
    z = pyvc.z3()
    self.z, self.ndim = z, ndim
    self.nc = 2 ** (ndim - 1)
    self.P, self.Q = z.Int('entities'), z.Int('facets')
    I, Bo = z.IntSort(), z.BoolSort()
    self.dim = z.Function('dim', I, I)                      # dimension of the k-th entity
    self.dom = z.Function('declared', I, I, Bo)             # the k-th entity declares a partner of node n
    self.val = z.Function('partner', I, I, I)
    self.node = [z.Function(f'node{c}', I, I) for c in range(self.nc)]
    self.nonempty = z.Bool('some_facet_is_periodic')
    self.k, self.j = z.Int('k'), z.Int('j')

  def sel(self, k, j):
    z = self.z
    return z.And(self.dim(k) == self.ndim - 1, *[self.dom(k, n(j)) for n in self.node])


class Loop(pyvc.Loops):

  def __init__(self, w):
    super().__init__()
    self.w, self.done = w, []

  def links(self, k, loc, names):
    c = [x for x in names if isinstance(loc.get(x), (list, Links)) and (isinstance(loc[x], Links) or not loc[x])]
    if len(c) != 1:
      raise Unsupported('accumulator')
    return c[0]

  def mk(self, at):
    l = Links(at)
    l.w = self.w
    return l

  # positions: ('e', k): all entities below k; ('f', k, j): those, and the facets below j of entity k
  def entry(self, k, it, loc, names):
    w, c, z = self.w, pyvc.CTX, self.w.z
    nm = self.links(k, loc, names)
    l = loc[nm]
    if it is ENT:
      if not isinstance(l, list) or l:
        raise Failed('links before the first entity')
      c.assume(z.And(0 <= w.k, w.k <= w.P))
      self.role = {**getattr(self, 'role', {}), k: 'e'}
      return {nm: self.mk(('e', w.k))}
    if isinstance(it, Facets) or (isinstance(it, list) and not it):
      if not isinstance(l, Links) or l.at != ('e', w.k) or l.app:
        raise Unsupported('links at the start of an entity')
      self.role = {**getattr(self, 'role', {}), k: 'f'}
      if isinstance(it, list):
        self.none = True
        c.assume(w.Q == 0)
      c.assume(z.And(0 <= w.j, w.j <= w.Q))
      return {nm: self.mk(('f', w.k, w.j))}
    raise Unsupported('loop over something else')

  def element(self, k, it):
    w, c = self.w, pyvc.CTX
    if self.role[k] == 'e':
      c.assume(w.k < w.P)
      w.pairs = Pairs(w, w.k)
      return (Z(w.dim(w.k)), OPAQUE, OPAQUE, w.pairs)
    c.assume(w.j < w.Q)
    w.facet = Facet([Z(n(w.j)) for n in w.node])
    return w.facet

  def step(self, k, loc):
    w, c, z = self.w, pyvc.CTX, self.w.z
    ls = [v for v in loc.values() if isinstance(v, Links)]
    if len(ls) != 1:
      raise Unsupported('accumulator')
    l = ls[0]
    if self.role[k] == 'e':
      if l.app:
        raise Failed('links of an entity as a whole')
      if l.at == ('e', w.k):        # nothing entered for this entity: right only if it has no links
        j = z.Int('any_facet')
        c.require(z.Implies(z.And(0 <= j, j < w.Q), z.Not(w.sel(w.k, j))), 'an entity passed over declares no facet')
      elif l.at[0] == 'f' and l.at[1] is w.k:
        c.require(l.at[2] == w.Q, 'all facets of the entity are considered')
      else:
        raise Unsupported('links at the end of an entity')
      return
    if l.at != ('f', w.k, w.j):
      raise Unsupported('links at the end of a facet')
    if not l.app:
      c.require(z.Not(w.sel(w.k, w.j)), 'a facet all of whose nodes the entity declares is linked')
      return
    if len(l.app) != 1:
      raise Failed('several links of one facet and entity')
    c.require(w.sel(w.k, w.j), 'only facets all of whose nodes an entity of facet dimension declares are linked')
    a = l.app[0]
    if not isinstance(a, Link) or len(a.src) != w.nc or len(a.tgt) != w.nc:
      raise Failed('form of a link')
    for q in range(w.nc):
      c.require(z.And(pyvc.zexp(a.src[q]) == w.node[q](w.j), pyvc.zexp(a.tgt[q]) == w.val(w.k, w.node[q](w.j))),
                'a link consists of the facet and the partners of its nodes in the same order')

  def exit(self, k, it, loc, names):
    w, c = self.w, pyvc.CTX
    nm = self.links(k, loc, names)
    if self.role[k] == 'e':
      c.assume(w.k == w.P)
      return {nm: self.mk(('e', w.P))}
    c.assume(w.j == w.Q)
    return {nm: self.mk(('f', w.k, w.Q))}


class Opaque:
  pass


OPAQUE, ENT = Opaque(), Opaque()


def links(ndim, has_facets=True, wrong=None):
  from swirl_fem.common import mesh_reader as mr
  from vf.props.c26 import Shim
  reached = dict(links=0, none=0)

  def run(ctx):
    w = World(ndim)
    z = w.z
    ctx.assume(z.And(w.P >= 0, w.Q >= 0))
    asked = []

    class Cells(dict):
      def get(self, name, default=None):
        asked.append(name)
        return Facets() if has_facets else default

      def __contains__(self, name):
        asked.append(name)
        return has_facets

      def __getitem__(self, name):
        asked.append(name)
        if not has_facets:
          raise KeyError(name)
        return Facets()

    class Mesh:
      cells_dict = Cells()
      gmsh_periodic = ENT

    def stack(seq, dtype=None, axis=0):
      if isinstance(seq, Links):
        if dtype is not None and np.dtype(dtype).kind not in 'iu':
          raise Failed(f'links of type {dtype}')
        return Result(None, seq)
      seq = list(seq)
      if axis != 0 or len(seq) != 2:
        raise Unsupported('stack')
      return Link(list(seq[0]), list(seq[1]))

    def asarray(x, dtype=None):
      if isinstance(x, Links):
        return stack(x, dtype)
      x = list(x)
      return Link(list(x[0]), list(x[1])) if len(x) == 2 and not isinstance(x[0], Z) else x

    def mkdict(x=()):
      if isinstance(x, Pairs):
        return Map(x)
      return dict(x)
    f = pyvc.instrument(getattr(mr, locate(mr, '_get_periodic_links', ('mesh', 'ndim'))), Loop(w),
                        patch=dict(np=Shim(np, stack=stack, array=asarray, asarray=asarray), dict=mkdict))
    r = f(Mesh(), ndim) if wrong is None else f(Mesh(), ndim)
    if asked and set(asked) != {CELL[ndim - 1]}:
      raise Failed(f'facets of a mesh in {ndim} dimensions are sought among cells of type {asked}')
    if not asked:
      raise Unsupported('facets')
    if r is None:
      ctx.require(z.Not(w.nonempty), 'there are links')
      reached['none'] += 1
      return
    ctx.require(w.nonempty, 'without periodic facets the result is None')
    if not isinstance(r, Result) or not isinstance(r.links, Links) or r.links.at != ('e', w.P) or r.links.app:
      raise Failed('the result is not the array of all links')
    if r.order != (order(ndim - 1) if wrong is None else wrong) and not (r.order is None and order(ndim - 1) == list(range(w.nc))):
      raise Failed(f'the nodes of the links are taken in the order {r.order}; the tensor-product order is {order(ndim - 1)}')
    reached['links'] += 1
  n = pyvc.explore(run)
  if has_facets and not reached['links'] or not reached['none']:
    raise Failed(f'vacuous: {reached}')
  return f'{n} paths'


# ---------------------------------------------------------------- read, unbounded in nodes and cells
class Table:
  """an array of the file with columns known by number (rows arbitrary)"""

  def __init__(self, name, cols, rows):
    self.name, self.cols, self.rows = name, cols, rows

  @property
  def shape(self):
    return (self.rows, len(self.cols))

  def __len__(self):
    return self.rows.__index__()

  def __getitem__(self, ix):
    if not isinstance(ix, tuple) or len(ix) != 2 or ix[0] not in (slice(None), Ellipsis):
      raise Unsupported('indexing')
    c = ix[1]
    if isinstance(c, slice):
      return Table(self.name, self.cols[c], self.rows)
    return Table(self.name, [self.cols[q] for q in np.asarray(c).tolist()], self.rows)

  def take(self, c, axis):
    if axis not in (1, -1):
      raise Unsupported('take')
    return self[:, c]


def read(ndim, periodic, present, wrong=False):
  """postcondition of read over tables with any number of rows"""
  from swirl_fem.common import mesh_reader as mr
  from vf.props.c26 import Shim
  LINKS = object()
  got = {}

  class Cells(dict):
    pass
  cells = Cells()
  for d in range(4):
    if d != ndim or present:
      cells[CELL[d]] = Table(CELL[d], list(range(2 ** d)), Z(pyvc.z3().Int('cells')))

  class Mesh:
    points = Table('points', [0, 1, 2], Z(pyvc.z3().Int('nodes')))
    cells_dict = cells
    gmsh_periodic = periodic

  mesh = Mesh()

  class Pm:
    @staticmethod
    def create(**kw):
      got.update(kw)
      return 'premesh'

  def reader(p, *a, **k):
    if p != 'the path':
      raise Failed('another file is read')
    return mesh

  def callee(m, ndim=None):
    if m is not mesh:
      raise Failed('links of another mesh')
    got['links_ndim'] = ndim
    return LINKS
  f = pyvc.instrument(mr.read, pyvc.Loops(), patch={'meshio': Shim(None, read=reader), 'Premesh': Pm,
                                                      locate(mr, '_get_periodic_links', ('mesh', 'ndim')): callee})
  try:
    r = f('the path', ndim)
  except ValueError as e:
    if present and ndim in (1, 2, 3):
      raise Failed(f'rejected: {e}')
    return 'rejected'
  except KeyError as e:
    raise Failed(f'{type(e).__name__}: {e} instead of a ValueError')
  if not present or ndim not in (1, 2, 3):
    raise Failed('a mesh without cells of the dimension is accepted')
  nc, el = got.get('node_coords'), got.get('elements')
  if r != 'premesh' or not isinstance(nc, Table) or not isinstance(el, Table):
    raise Unsupported('form of the result')
  if nc.name != 'points' or nc.cols != list(range(ndim)):
    raise Failed(f'node coordinates are columns {nc.cols} of {nc.name}')
  if el.name != CELL[ndim] or el.cols != (order(ndim) if not wrong else sorted(order(ndim))):
    raise Failed(f'corners of the elements are columns {el.cols} of {el.name}; in tensor-product order they are {order(ndim)}')
  want = LINKS if periodic else None
  if got.get('periodic_links') is not want or (periodic and got['links_ndim'] != ndim):
    raise Failed('links are not those of the mesh')
  if set(got) - {'node_coords', 'elements', 'periodic_links', 'links_ndim'}:
    raise Unsupported(f'further fields {sorted(got)}')
  return 'read'


# ---------------------------------------------------------------- specification on concrete files
def spec(points, cells, periodic, ndim):
  el = np.asarray(cells[CELL[ndim]])[:, order(ndim)]
  ls = []
  for d, pairs in periodic or []:
    m = dict(pairs)
    for f in cells.get(CELL[ndim - 1], []):
      if d == ndim - 1 and all(int(x) in m for x in f):
        ls.append([[int(f[q]) for q in order(ndim - 1)], [m[int(f[q])] for q in order(ndim - 1)]])
  return np.asarray(points)[:, :ndim], el, np.array(ls) if ls else None


def compare(pm, want):
  nc, el, ls = want
  if not np.array_equal(np.asarray(pm.node_coords), nc):
    return f'node coordinates {np.asarray(pm.node_coords)[:4].tolist()} instead of {nc[:4].tolist()}'
  if not np.array_equal(np.asarray(pm.elements), el):
    return f'elements {np.asarray(pm.elements)[:4].tolist()} instead of {el[:4].tolist()}'
  if (pm.periodic_links is None) != (ls is None):
    return f'links {None if pm.periodic_links is None else np.asarray(pm.periodic_links).tolist()} instead of {None if ls is None else ls.tolist()}'
  if ls is not None:
    a = sorted(np.asarray(pm.periodic_links).tolist())
    if a != sorted(ls.tolist()):
      return f'links {a[:4]} instead of {sorted(ls.tolist())[:4]}'


def random_file(rng, ndim):
  """cells, facets and periodic entities with arbitrary node numbers"""
  N = 2 ** ndim + rng.randint(0, 12)
  # full double precision, at magnitudes from tiny to huge, also far from the origin
  pts = rng.randn(N, 3) * 10. ** rng.choice([-14, -6, 0, 0, 7]) + rng.choice([0., 0., 1000., -1e-3])
  if ndim < 3:
    pts[:, ndim:] = rng.choice([0., 2.5])
  if rng.rand() < .4:
    # flat along one of the coordinates, the first ones included
    pts[:, rng.randint(0, 3)] = rng.choice([0., -1.5, pts[0, 0]])
  if rng.rand() < .2:
    pts = np.round(pts)        # coincident and integral coordinates
  if rng.rand() < .1:
    pts[rng.randint(0, N)] = pts[rng.randint(0, N)]
  pick = lambda n, k: np.stack([rng.permutation(N)[:k] for _ in range(n)])
  cells = {CELL[ndim]: pick(rng.randint(1, 4), 2 ** ndim)}
  if rng.rand() < .9:
    cells[CELL[ndim - 1]] = pick(rng.randint(1, 7), 2 ** (ndim - 1))
  per = []
  for _ in range(rng.randint(0, 4)):
    d = ndim - 1 if rng.rand() < .7 else rng.randint(0, 3)
    fs = cells.get(CELL[ndim - 1])
    src = rng.permutation(N)[:rng.randint(1, N)] if fs is None or rng.rand() < .4 else \
      np.unique(fs[rng.permutation(len(fs))[:rng.randint(1, len(fs) + 1)]].ravel())
    if rng.rand() < .3 and len(src) > 1:
      src = src[1:]
    src = rng.permutation(src)
    tgt = rng.permutation(N)[:len(src)]
    per.append((int(d), [(int(a), int(b)) for a, b in zip(src, tgt)]))
  return pts, cells, per


def blocks(rng, cells, foreign=True):
  """the cells in the order of a file: several blocks per type (one per physical group), in any order, other types between"""
  out = []
  queue = {k: list(np.array_split(np.asarray(v), sorted(rng.choice(len(v) + 1, rng.randint(0, 3))))) for k, v in cells.items()}
  queue = {k: [b for b in v if len(b)] for k, v in queue.items()}
  if foreign:
    N = 1 + max(int(np.max(v)) for v in cells.values())
    queue['triangle'] = [rng.randint(0, N, size=(rng.randint(1, 3), 3)) for _ in range(rng.randint(0, 2))]
  while any(queue.values()):
    k = rng.choice([k for k, v in queue.items() if v])
    out.append((str(k), queue[k].pop(0)))
  return out


def as_meshio(pts, cells, per):
  import meshio
  gp = [[d, (1, 2), None, np.array(p, dtype=np.int32).reshape(-1, 2)] for d, p in per] if per else None
  return meshio.Mesh(pts, cells, gmsh_periodic=gp)


def stub_read(seed, count):
  """real read and links on real meshio meshes (file parsing replaced), against the specification"""
  import meshio
  from swirl_fem.common import mesh_reader as mr
  rng = np.random.RandomState(seed)
  real = meshio.read
  for _ in range(count):
    ndim = rng.randint(1, 4)
    pts, cells, per = random_file(rng, ndim)
    bl = blocks(rng, cells)
    m = as_meshio(pts, bl, per)
    meshio.read = lambda *a, **k: m
    try:
      pm = mr.read('nowhere', ndim)
      for other in (1, 2, 3):
        if CELL[other] not in cells:
          try:
            mr.read('nowhere', other)
          except ValueError:
            continue
          raise Failed(f'accepted without cells of dimension {other}', model=dict(cells=list(cells)))
      for bad in (0, 4, -1):
        try:
          mr.read('nowhere', bad)
        except ValueError:
          continue
        raise Failed(f'ndim {bad} accepted', model=dict(ndim=bad))
    except Failed:
      raise
    except Exception as e:
      raise Failed(f'{type(e).__name__}: {e}', model=dict(ndim=int(ndim), points=pts, cells=bl, periodic=per))
    finally:
      meshio.read = real
    r = compare(pm, spec(pts, cells, per, ndim))
    if r:
      raise Failed(r, model=dict(ndim=int(ndim), points=pts, cells=bl, periodic=per))
  return f'{count} meshes'


def prove(chk):
  chk.trust('z3', 'vf/pyvc.py (loop cutting)', 'corner numbering of the Gmsh manual', 'meshio: file parsing, cells_dict, gmsh_periodic',
            'numpy: stack and column selection', 'Premesh.create (C09)', 'dict of pairs: a partial map (later pairs override)')
  chk.assume('the meshio mesh lists each facet once per cell of the file; node indices fit 32 bits')
  sizes = chk.n(150, 1500)
  bound = f'{sizes} random meshes of at most 3 cells, 6 facets and 3 periodic entities'
  stand = (bound, lambda: stub_read(chk.seed, sizes))
  for ndim in (1, 2, 3):
    chk.oblige(f'links: ndim {ndim}, every number of entities and facets', lambda: links(ndim), 'z3', F[1:], stand_in=stand)
    chk.oblige(f'links: ndim {ndim}, no facets in the file', lambda: links(ndim, has_facets=False), 'z3', F[1:], stand_in=stand)
    for per in (None, [], ['entities']):
      chk.oblige(f'read: ndim {ndim}, periodic section {per}', lambda: read(ndim, per, True), 'symbolic execution', F[:1], stand_in=stand)
    chk.oblige(f'read: ndim {ndim}, cells missing', lambda: read(ndim, None, False), 'symbolic execution', F[:1], stand_in=stand)
  for bad in (-1, 0, 4, 7):
    chk.oblige(f'read: ndim {bad} rejected', lambda: read(bad, None, True), 'symbolic execution', F[:1], stand_in=stand)
  chk.oblige('read on meshes in memory', stand[1], 'real code executed', F, bounded=bound)
  chk.canary('another order of the links', lambda: links(3, wrong=[0, 1, 2, 3]), 'z3')
  chk.canary('another order of the corners', lambda: read(3, None, True, wrong=True), 'symbolic execution')


# ---------------------------------------------------------------- runtime contracts: real files
def write22(path, pts, cells, per, tags):
  """MSH 2.2, written here so that node tags are arbitrary"""
  code = {'vertex': 15, 'line': 1, 'triangle': 2, 'quad': 3, 'hexahedron': 5}
  with open(path, 'w') as f:
    f.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
    f.write(f'$Nodes\n{len(pts)}\n')
    for t, p in zip(tags, pts):
      f.write(f'{t} ' + ' '.join(repr(float(x)) for x in p) + '\n')
    f.write('$EndNodes\n')
    n = sum(len(c) for c in [b for _, b in cells])
    f.write(f'$Elements\n{n}\n')
    k = 1
    for nm, cs in cells:
      for c in cs:
        f.write(f'{k} {code[nm]} 2 0 1 ' + ' '.join(str(tags[q]) for q in c) + '\n')
        k += 1
    f.write('$EndElements\n')
    if per:
      f.write(f'$Periodic\n{len(per)}\n')
      for d, p in per:
        f.write(f'{d} 1 2\n{len(p)}\n')
        for a, b in p:
          f.write(f'{tags[a]} {tags[b]}\n')
      f.write('$EndPeriodic\n')


def write41(path, pts, cells, per, tags):
  code = {'vertex': 15, 'line': 1, 'triangle': 2, 'quad': 3, 'hexahedron': 5}
  dim = {'vertex': 0, 'line': 1, 'triangle': 2, 'quad': 2, 'hexahedron': 3}
  with open(path, 'w') as f:
    f.write('$MeshFormat\n4.1 0 8\n$EndMeshFormat\n')
    f.write(f'$Nodes\n1 {len(pts)} {min(tags)} {max(tags)}\n3 1 0 {len(pts)}\n')
    f.write('\n'.join(map(str, tags)) + '\n')
    for p in pts:
      f.write(' '.join(repr(float(x)) for x in p) + '\n')
    f.write('$EndNodes\n')
    n = sum(len(c) for c in [b for _, b in cells])
    f.write(f'$Elements\n{len(cells)} {n} 1 {n}\n')
    k = 1
    for nm, cs in cells:
      f.write(f'{dim[nm]} 1 {code[nm]} {len(cs)}\n')
      for c in cs:
        f.write(f'{k} ' + ' '.join(str(tags[q]) for q in c) + '\n')
        k += 1
    f.write('$EndElements\n')
    if per:
      f.write(f'$Periodic\n{len(per)}\n')
      for d, p in per:
        f.write(f'{d} 1 2\n0\n{len(p)}\n')
        for a, b in p:
          f.write(f'{tags[a]} {tags[b]}\n')
      f.write('$EndPeriodic\n')


def quiet(f, *a):
  with contextlib.redirect_stdout(io.StringIO()):
    return f(*a)


def contracts(chk):
  from swirl_fem.common import mesh_reader as mr
  rng = np.random.RandomState(chk.seed)
  d = tempfile.mkdtemp(prefix='vf_c23_')
  try:
    for k in range(chk.n(40, 600)):
      ndim = int(rng.randint(1, 4))
      pts, cells, per = random_file(rng, ndim)
      fmt = [write22, write41][rng.randint(2)]
      sparse = not per and rng.rand() < .5
      tags = (np.sort(rng.permutation(5 * len(pts))[:len(pts)]) + 1 if sparse else np.arange(1, len(pts) + 1)).tolist()
      if sparse and rng.rand() < .5:
        tags = rng.permutation(tags).tolist()

      bl = blocks(rng, cells)

      def run(ndim=ndim, bl=bl, pts=pts, cells=cells, per=per, tags=tags, fmt=fmt):
        path = os.path.join(d, 'm.msh')
        fmt(path, pts, bl, per, tags)
        return compare(quiet(mr.read, path, ndim), spec(pts, cells, per, ndim))
      chk.case('file', run, dict(ndim=ndim, format=fmt.__name__, points=pts, cells=bl, periodic=per, tags=tags))

    def positive(ndim):
      """an affinely mapped, correctly oriented Gmsh cell has a positive Jacobian in tensor-product order"""
      A = rng.randn(ndim, ndim) + 2 * np.eye(ndim)
      if np.linalg.det(A) < 0:
        A[0] *= -1
      pts = np.zeros((2 ** ndim, 3))
      p = rng.permutation(2 ** ndim)
      pts[p, :ndim] = np.array(GMSH[ndim]) @ A.T
      path = os.path.join(d, 'p.msh')
      write22(path, pts, [(CELL[ndim], p[None])], [], list(range(1, len(pts) + 1)))
      pm = quiet(mr.read, path, ndim)
      x = np.asarray(pm.node_coords)[np.asarray(pm.elements)[0]].reshape((2,) * ndim + (ndim,))
      o = (0,) * ndim
      J = np.stack([x[tuple(int(q == a) for q in range(ndim))] - x[o] for a in range(ndim)], axis=1)
      if not np.linalg.det(J) > 0:
        return f'Jacobian {np.linalg.det(J)}'
    for ndim in (1, 2, 3):
      chk.case('orientation', lambda: positive(ndim), dict(ndim=ndim))

    def order_of_tags():
      """periodic section of a file whose node tags do not count 1, 2, ... in file order"""
      pts = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0]], float)
      cells = {'quad': np.array([[0, 1, 2, 3]]), 'line': np.array([[0, 3], [1, 2]])}
      per = [(1, [(1, 0), (2, 3)])]
      path = os.path.join(d, 't.msh')
      write41(path, pts, list(cells.items()), per, [11, 12, 13, 14])
      return compare(quiet(mr.read, path, 2), spec(pts, cells, per, 2))
    chk.case('periodic file with other node tags', order_of_tags, dict(tags=[11, 12, 13, 14]))
  finally:
    shutil.rmtree(d, ignore_errors=True)

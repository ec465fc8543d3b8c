"""C26: flow-data generation advances and records the simulation history in order."""
NOTE = ('one_cycle is recompiled from its source with its time loop cut at an inductive invariant (histories hold the last states oldest first, '
        'time and recorded data match the step reached) and proved for every number of steps, calling the contract of _solve_one_step; '
        '_solve_one_step is proved from its jaxpr against the contract of stokes_one_step, over abstract velocity and pressure spaces. '
        'History lengths 1 to 8 are enumerated, since the histories are tuples.')
TECHNIQUE = ('loop-invariant verification conditions from the source of one_cycle (z3) and a caller-against-callee-contract proof of '
             '_solve_one_step over its jaxpr')

import types
import numpy as np
from vf.core import Failed, Unsupported
from vf import pyvc
from vf.pyvc import Z

F = ['datagen.one_cycle', 'datagen._solve_one_step', 'datagen.run_simulation']


# ---------------------------------------------------------------- one_cycle
class Val:
  """State of one kind (u, p or C(u)) at a time index."""

  def __init__(self, kind, idx):
    self.kind, self.idx = kind, idx

  def __repr__(self):
    return f'{self.kind}[{self.idx}]'


class Bad:
  """Result of a step whose inputs were not the histories."""

  def __init__(self, why):
    self.why = why

  def __repr__(self):
    return self.why


class Series:
  """The recorded list of one kind: initial state and every tenth state up to index `upto`; then what was appended."""

  def __init__(self, kind, upto):
    self.kind, self.upto, self.app = kind, upto, []

  def append(self, v):
    self.app.append(v)

  def __iadd__(self, vs):
    self.app.extend(vs)
    return self


class Time:
  """start*DT + j*DT (machine arithmetic treated as exact): value = base*DT with base an integer expression"""

  def __init__(self, steps):
    self.steps = steps


class Dt:
  """the module's DT"""

  def __mul__(self, k):
    e = pyvc.zexp(k)
    return NotImplemented if e is None else Time(e)
  __rmul__ = __mul__

  def __add__(self, t):
    return Time(t.steps + 1) if isinstance(t, Time) else NotImplemented
  __radd__ = __add__


Time.__add__ = lambda s, o: Time(s.steps + 1) if isinstance(o, Dt) else (Time(s.steps + o.steps) if isinstance(o, Time) else NotImplemented)
Time.__radd__ = Time.__add__


class SymRange:

  def __init__(self, *a):
    es = [pyvc.zexp(x) for x in a]
    if any(e is None for e in es) or len(a) > 2:
      raise Unsupported('range')
    z = pyvc.z3()
    self.lo, self.hi = (z.IntVal(0), es[0]) if len(es) == 1 else es


def sym_range(*a):
  return SymRange(*a) if any(isinstance(x, Z) for x in a) else range(*a)


class Cycle(pyvc.Loops):

  def __init__(self, H):
    super().__init__()
    z = pyvc.z3()
    self.H = H
    self.start, self.num, self.j = z.Int('start_step'), z.Int('num_steps'), z.Int('j')
    self.roles = {}

  # the value playing a role, at state index j
  def build(self, role, j):
    kind, form = role
    if kind == 'time':
      return Time(self.start + j)
    if form == 'tuple':
      return tuple(Val(kind, j - self.H + 1 + q) for q in range(self.H))
    if form == 'list':
      return [Val(kind, j - self.H + 1 + q) for q in range(self.H)]
    if form == 'series':
      return Series(kind, j)
    raise Unsupported(str(role))

  def classify(self, v):
    """role of a loop-carried value, from its value before the loop"""
    z = pyvc.z3()
    is0 = lambda e: z.simplify(e)
    c = pyvc.CTX
    if isinstance(v, Time):
      c.require(v.steps == self.start, 'time before the loop is the starting time')
      return ('time', None)
    if isinstance(v, (tuple, list)) and v and all(isinstance(x, Val) for x in v):
      kind = v[0].kind
      if len(v) == self.H and all(x.kind == kind for x in v) and all(c.valid(x.idx == q - self.H + 1) for q, x in enumerate(v)) and \
         not (isinstance(v, list) and self.H == 1):
        return (kind, 'tuple' if isinstance(v, tuple) else 'list')
      if isinstance(v, list) and len(v) == 1 and c.valid(v[0].idx == 0):
        return (kind, 'series')
      raise Failed(f'history before the loop is {v}, {self.H} entries')
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], Time):
      c.require(v[0].steps == self.start, 'the recorded initial time is the starting time')
      return ('t', 'series')
    if isinstance(v, dict):
      return {q: self.classify(x) for q, x in v.items()}
    return None

  def make(self, role, j):
    return {q: self.make(r, j) for q, r in role.items()} if isinstance(role, dict) else self.build(role, j)

  def entry(self, k, it, loc, names):
    if k != 0 or not isinstance(it, SymRange):
      raise Unsupported('unexpected loop')
    c, z = pyvc.CTX, pyvc.z3()
    self.it = it
    roles = {}
    for x in names:
      if x in loc:
        r = self.classify(loc[x])
        if r is not None:
          roles[x] = r
        elif not isinstance(loc[x], (types.ModuleType, types.FunctionType)) and x not in ('sem', 'logging', 'time') and not callable(loc[x]):
          raise Unsupported(f'no role for {x} = {loc[x]!r}')
    self.roles = roles
    c.assume(self.j >= 0)
    return {x: self.make(r, self.j) for x, r in roles.items()}

  def element(self, k, it):
    pyvc.CTX.assume(it.lo + self.j < it.hi)
    return Z(it.lo + self.j)

  def same(self, v, role, j, name):
    """the value plays its role at state index j"""
    c = pyvc.CTX
    z = pyvc.z3()
    if isinstance(role, dict):
      if not isinstance(v, dict) or set(v) != set(role):
        raise Failed(f'{name} is {v!r}')
      for q in role:
        self.same(v[q], role[q], j, f'{name}[{q!r}]')
      return
    kind, form = role
    if kind == 'time':
      if not isinstance(v, Time):
        raise Failed(f'{name} is {v!r}')
      c.require(v.steps == self.start + j, f'{name} is the time of the step reached')
    elif form in ('tuple', 'list'):
      if not isinstance(v, (tuple, list)) or len(v) != self.H:
        raise Failed(f'{name} does not keep its length {self.H}: {v!r}')
      for q, x in enumerate(v):
        if not isinstance(x, Val) or x.kind != kind:
          raise Failed(f'{name}[{q}] is {x!r}')
        c.require(x.idx == j - self.H + 1 + q, f'{name}[{q}] is entry {q} of the history, oldest first')
    elif form == 'series':
      if not isinstance(v, Series) or v.kind != kind:
        raise Failed(f'{name} is {v!r}')
      if len(v.app) > 1:
        raise Failed(f'{name}: several records in one step')
      if not v.app:
        c.require(z.Or(j == v.upto, z.And(j == v.upto + 1, j % 10 != 0)), f'{name}: every tenth state is recorded')
      else:
        x = v.app[0]
        c.require(z.And(j == v.upto + 1, j % 10 == 0), f'{name}: only every tenth state is recorded')
        if kind == 't':
          if not isinstance(x, Time):
            raise Failed(f'{name} records {x!r}')
          c.require(x.steps == self.start + j, f'{name} records the time of its state')
        else:
          if not isinstance(x, Val) or x.kind != kind:
            raise Failed(f'{name} records {x!r}')
          c.require(x.idx == j, f'{name} records the new state')

  def step(self, k, loc):
    for x, r in self.roles.items():
      self.same(loc[x], r, self.j + 1, x)

  def exit(self, k, it, loc, names):
    z = pyvc.z3()
    pyvc.CTX.assume(it.lo + self.j == z.If(it.hi >= it.lo, it.hi, it.lo))
    return {x: self.make(r, self.j) for x, r in self.roles.items()}


class Shim:
  """a module with some names replaced"""

  def __init__(self, mod, **kw):
    self.__dict__.update(kw)
    self.__dict__['_mod'] = mod

  def __getattr__(self, n):
    return getattr(self._mod, n)


def cycle(H, wrong=None):
  import jax
  from swirl_fem.niles.datagen import datagen
  total = [0]

  def run(ctx):
    vc = Cycle(H)
    files = {}
    ctx.assume(vc.num >= 0)

    def solve(sem, us, ps, Cus):
      """contract of _solve_one_step: the next state, given histories that end at the same state, oldest first"""
      idx = None
      for h, kind in ((us, 'u'), (ps, 'p'), (Cus, 'Cu')):
        if not isinstance(h, (tuple, list)) or len(h) != H:
          raise Failed(f'step called with {kind} history {h!r}')
        for q, v in enumerate(h):
          if not isinstance(v, Val) or v.kind != kind:
            raise Failed(f'step called with {v!r} in the {kind} history')
          if idx is None:
            idx = h[-1].idx
          ctx.require(v.idx == idx - H + 1 + q, f'the step sees the {kind} history oldest first')
      new = idx + 1
      return Val('u', new), Val('p', new), Val('Cu', new)

    class Sem:
      def C(self, u):
        if not isinstance(u, Val) or u.kind != 'u':
          raise Unsupported('C of something else')
        return Val('Cu', u.idx)
    np_ = Shim(np, stack=lambda l, **k: ('stack', l) if not k else None, array=lambda l, **k: ('stack', l) if not k else None,
               asarray=lambda l, **k: ('stack', l))

    class H5:
      def __enter__(self): return self
      def __exit__(self, *a): return False
      def __setitem__(self, k, v): files[k] = v
      def create_dataset(self, k, data=None, **kw): files[k] = data
    names = []
    patch = dict(_solve_one_step=solve, range=sym_range, np=np_, DT=Dt(), jax=Shim(jax, jit=lambda f, **k: f),
                 jnp=Shim(jax.numpy, stack=np_.stack, array=np_.array, asarray=np_.asarray), h5py=Shim(None, File=lambda *a, **k: H5()), FLAGS=Shim(None, workdir='/nonexistent'),
                 epath=Shim(None, Path=lambda p: Shim(None, write_bytes=lambda b: names.append(str(p)))))
    f = pyvc.instrument(datagen.one_cycle, vc, patch=patch)
    if len(f.vc_loops) < 1:
      raise Unsupported('no loop')
    z = pyvc.z3()
    I = z.IntVal
    us = tuple(Val('u', I(q - H + 1)) for q in range(H))
    ps = tuple(Val('p', I(q - H + 1)) for q in range(H))

    class Cut(Cycle):
      pass
    # loops other than the time loop (e.g. over the keys of the record) are run as they are
    which = [k for k, *_ in f.vc_loops]
    f = pyvc.instrument(datagen.one_cycle, vc, which=[time_loop(datagen.one_cycle)], patch=patch)
    vc.entry_k = which
    out = f(Sem(), Z(vc.start), Z(vc.num), us, ps)
    # ---- postcondition
    n = vc.num if wrong is None else vc.num + 1
    if not isinstance(out, tuple) or len(out) != 2:
      raise Failed(f'result {out!r}')
    for o, kind in zip(out, ('u', 'p')):
      vc.same(o, (kind, 'tuple'), n, f'returned {kind} history')
    if set(files) != {'t', 'u', 'p'}:
      raise Failed(f'the data set holds {sorted(files)}')
    for q, v in files.items():
      if isinstance(v, tuple) and v[0] == 'stack' and isinstance(v[1], list):
        vals = v[1]
        raise Unsupported('records not carried through the loop')
      if not (isinstance(v, tuple) and v[0] == 'stack' and isinstance(v[1], Series)):
        raise Failed(f'the data set {q} is {v!r}')
      vc.same(v[1], (q, 'series'), n, f'data set {q}')
    if len(names) != 1:
      raise Failed('the data set is not written once')
    total[0] += 1
  paths = pyvc.explore(run)
  if not total[0]:
    raise Failed('vacuous: the postcondition was never reached')
  return f'{paths} paths'


class Hist:
  """a history of the time order's length, ending at a given step"""

  def __init__(self, kind, steps, n):
    self.kind, self.steps, self.n = kind, steps, n

  def __len__(self):
    return self.n

  def __getitem__(self, i):
    return ANY

  def __iter__(self):
    return iter([ANY] * self.n)


class Any:
  """a value used only for reporting"""

  def __call__(self, *a, **k):
    return self

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return self

  def __getitem__(self, i):
    return self

  def _op(self, o):
    return self
  __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __add__ = __radd__ = __sub__ = __rsub__ = _op

  def __float__(self):
    return 1.


ANY = Any()


class Cycles(pyvc.Loops):

  def __init__(self, T, per):
    super().__init__()
    z = pyvc.z3()
    self.T, self.per, self.c, self.count, self.calls = T, per, z.Int('cycle'), z.Int('num_cycles'), []

  def entry(self, k, it, loc, names):
    if not isinstance(it, SymRange):
      raise Unsupported('cycles')
    c, z = pyvc.CTX, pyvc.z3()
    c.require(z.And(it.lo == 0, it.hi == self.count), 'the number of cycles')
    self.names = {}
    for x in names:
      v = loc.get(x)
      if isinstance(v, (tuple, list)) and v and all(q is v[0] for q in v) and isinstance(v[0], Val):
        if len(v) != self.T:
          raise Failed(f'initial history of {len(v)} entries')
        self.names[x] = v[0].kind
    if sorted(self.names.values()) != ['p', 'u']:
      raise Failed(f'initial histories {self.names}')
    c.assume(z.And(self.c >= 0, self.per >= 1))
    return {x: Hist(kd, self.c * self.per, self.T) for x, kd in self.names.items()}

  def element(self, k, it):
    pyvc.CTX.assume(self.c < self.count)
    self.calls.clear()
    return Z(self.c)

  def step(self, k, loc):
    if len(self.calls) != 1:
      raise Failed(f'{len(self.calls)} cycles run in one iteration')
    for x, kd in self.names.items():
      v = loc[x]
      if not isinstance(v, Hist) or v.kind != kd:
        raise Failed(f'{x} is not the {kd} history after a cycle')
      pyvc.CTX.require(v.steps == (self.c + 1) * self.per, f'{x} is the {kd} history at the end of the cycle')

  def exit(self, k, it, loc, names):
    pyvc.CTX.assume(self.c == self.count)
    return {x: Hist(kd, self.c * self.per, self.T) for x, kd in self.names.items()}


def simulation(wrong=None):
  """run_simulation, every number of cycles and steps per cycle, calling one_cycle by contract"""
  import inspect
  from swirl_fem.niles.datagen import datagen
  reached = [0]
  sig = inspect.signature(datagen.one_cycle)

  def run(ctx):
    z = pyvc.z3()
    per = z.Int('steps_per_cycle')
    T = datagen.TIME_ORDER
    vc = Cycles(T, per)
    sem = Shim(None, velocity=Shim(None, mesh=Shim(None, node_coords='X', num_nodes=1, num_elements=1)),
               pressure=Shim(None, pspace=Shim(None, mesh=Shim(None, num_nodes=1))))

    def one_cycle(*a, **k):
      b = sig.bind(*a, **k).arguments
      u, p = b['us'], b['ps']
      if b['sem'] is not sem or not isinstance(u, Hist) or not isinstance(p, Hist) or (u.kind, p.kind) != ('u', 'p'):
        raise Failed('a cycle is not started with the velocity and pressure histories')
      ctx.require(u.steps == p.steps, 'both histories are at the same step')
      ctx.require(pyvc.zexp(b['start_step']) == u.steps + (0 if wrong is None else 1), 'a cycle starts at the step the histories have reached')
      n = pyvc.zexp(b['num_steps'])
      ctx.require(n == per, 'number of steps of a cycle')
      vc.calls.append(1)
      return Hist('u', u.steps + n, T), Hist('p', p.steps + n, T)

    def vmap(f):
      if f is not datagen.u_init_fn:
        raise Unsupported('initial field')
      return lambda x: Val('u', z.IntVal(0)) if x == 'X' else 1 / 0
    import jax
    f = pyvc.instrument(datagen.run_simulation, vc, patch=dict(
        one_cycle=one_cycle, range=sym_range, NUM_CYCLES=Z(vc.count), NUM_STEPS_PER_CYCLE=Z(per), compute_dx=lambda m: 1.,
        premesh_commons=Shim(None, unit_cube_mesh=lambda *a, **k: None), jax=Shim(jax, vmap=vmap),
        jnp=Shim(jax.numpy, zeros=lambda *a, **k: Val('p', z.IntVal(0))), np=Shim(np, float32=float), DT=1.,
        navier_stokes=Shim(None, StokesSEM=Shim(None, create=lambda *a, **k: sem)), logging=ANY))
    f()
    reached[0] += 1
  n = pyvc.explore(run)
  if not reached[0]:
    raise Failed('vacuous: the end was never reached')
  return f'{n} paths'


def time_loop(fn):
  """index of the loop that iterates over the steps (the one whose body calls the step)"""
  import ast, inspect, textwrap
  tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
  loops = []

  class V(ast.NodeVisitor):
    def loop(self, n):
      loops.append(n)
      self.generic_visit(n)
    visit_For = visit_While = loop
  V().visit(tree)
  for k, n in enumerate(loops):
    names = {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
    if 'num_steps' in names or 'us' in names:
      return k
  raise Unsupported('time loop not found')


# ---------------------------------------------------------------- _solve_one_step
def one_step(H, wrong=None):
  """obligation: forcing, extrapolated convection and histories handed to stokes_one_step; the new convection"""
  import jax, jax.numpy as jnp
  import sympy as sp
  from jax import export
  from jax.extend import core as jexc
  from swirl_fem.niles.datagen import datagen
  from swirl_fem.navier_stokes import navier_stokes as ns
  from vf import vecvc as vv
  from vf.props.c20 import shaped_op
  n, m = export.symbolic_shape('n,m')
  U, P = jax.ShapeDtypeStruct((n, 2), jnp.float64), jax.ShapeDtypeStruct((m,), jnp.float64)
  if 'vfstokes' not in vv._prims:
    prim = jexc.Primitive('vfstokes')
    prim.multiple_results = True
    prim.def_abstract_eval(lambda *a, **k: [a[0], a[k['nu']]])
    vv._prims['vfstokes'] = prim
  prim = vv._prims['vfstokes']
  calls = []

  class Sem:
    def B(self, x): return shaped_op('B', 'v')(x, U)
    def C(self, x): return shaped_op('C', 'v')(x, U)

    def stokes_one_step(self, us, ps, f, mu, dt, time_order, **kw):
      calls.append(dict(mu=mu, dt=dt, time_order=time_order, **kw))
      u, p = prim.bind(*us, *ps, f, nu=len(us), np_=len(ps))
      return u, p, {}

  def step(us, ps, cus, x):
    sem = Sem()
    sem.velocity = types.SimpleNamespace(mesh=types.SimpleNamespace(node_coords=x))
    saved = datagen.forcing, ns.extk_coeffs
    datagen.forcing = lambda x, u: 7. * x + 3. * u
    order = []

    def ext(k):
      order.append(int(k))
      return saved[1](k)
    ns.extk_coeffs = ext
    try:
      o = datagen._solve_one_step(sem, tuple(us), tuple(ps), tuple(cus))
    finally:
      datagen.forcing, ns.extk_coeffs = saved
    return o
  closed = jax.make_jaxpr(step)([U] * H, [P] * H, [U] * H, U)
  if len(calls) != 1:
    raise Failed(f'{len(calls)} Stokes steps')
  c = calls[0]
  if not (np.isclose(float(c['mu']), 1 / datagen.REYNOLDS_NUMBER) and float(c['dt']) == datagen.DT and c['time_order'] == datagen.TIME_ORDER):
    raise Failed(f'the Stokes step is called with {c}', model=dict(call=repr(c)))
  rec = []

  class It(step_interp()):
    def p_vfstokes(self, eqn, *ins):
      rec.append((ins, eqn.params['nu'], eqn.params['np_']))
      return [vv.vec('unew', 0), vv.vec('pnew', 0)]
  it = It()
  us = [vv.vec(f'u{i}', 0) for i in range(H)]
  ps = [vv.vec(f'p{i}', 0) for i in range(H)]
  cs = [vv.vec(f'c{i}', 0) for i in range(H)]
  outs = it.run(closed, *us, *ps, *cs, vv.vec('X', 0))
  ins, nu, np_ = rec[0]
  eq = lambda a, b, what: same(vv, a, b, what)
  if nu != H or np_ != H:
    raise Failed(f'{nu} velocities and {np_} pressures are handed to the Stokes step', model=dict(history=H))
  for i in range(H):
    eq(ins[i], us[i], f'velocity {i} handed to the Stokes step')
    eq(ins[nu + i], ps[i], f'pressure {i} handed to the Stokes step')
  w = np.asarray(ns.extk_coeffs(k=datagen.TIME_ORDER - 1)).tolist()
  want = vv.Ve({}, 0)
  for i in range(1, len(w) + 1):
    want = vv.vadd(want, vv.vscale(sp.nsimplify(-w[-i]), cs[-i if wrong is None else -1]))
  force = vv.Ve({(('B',), 'X'): sp.Integer(7), (('B',), f'u{H - 1}'): sp.Integer(3)}, 0)
  eq(ins[-1], vv.vadd(want, force), 'right-hand side: B forcing - extrapolated convection, newest history entry with the newest weight')
  eq(outs[0], vv.vec('unew', 0), 'new velocity')
  eq(outs[1], vv.vec('pnew', 0), 'new pressure')
  eq(outs[2], vv.Ve({(('C',), 'unew'): sp.Integer(1)}, 0), 'convection of the new velocity')
  if len(outs) != 3:
    raise Failed('number of results')


def same(vv, a, b, what):
  if not isinstance(a, vv.Ve):
    raise Failed(f'{what}: {a!r}')
  d = vv.vadd(a, b, -1)
  import sympy as sp
  if any(not vv.zero(sp.nsimplify(c, rational=True)) for c in d.t.values()):
    raise Failed(f'{what}: {a!r} != {b!r}'[:1500])


def step_interp():
  from vf.props import c20
  return c20.StepInterp


def prove(chk):
  chk.trust('jax tracing', 'vf/pyvc.py (loop cutting)', 'vf/vecvc.py', 'z3', 'contracts of stokes_one_step (C20), B and C (C21), jax.jit, h5py')
  chk.assume('time accumulation t += DT treated as exact', 'extk_coeffs is ordered oldest first (C19)')
  stand = ('history lengths 3 to 5, at most 30 steps', lambda: chk.deep(contracts))
  for H in range(1, 9):
    chk.oblige(f'one_cycle: history length {H}, every number of steps', lambda: cycle(H), 'z3', F[:1], stand_in=stand)
  chk.oblige('run_simulation: every number of cycles and steps per cycle', simulation, 'z3', F[2:])
  chk.canary('cycles start one step late', lambda: simulation(wrong=1), 'z3')
  for H in (3, 4, 5):
    chk.oblige(f'_solve_one_step: histories of length {H}', lambda: one_step(H), 'vector-space normalisation', F[1:2])
  chk.canary('one step more', lambda: cycle(3, wrong=1), 'z3')
  chk.canary('same convection entry with every weight', lambda: one_step(3, wrong=1), 'vector-space normalisation')


def contracts(chk):
  """the real cycle with an injective step, against a reference; files go to a scratch directory"""
  import os, shutil, tempfile, glob, io
  import jax, jax.numpy as jnp, h5py
  from absl import flags
  from swirl_fem.niles.datagen import datagen
  rng = np.random.RandomState(chk.seed)
  tmp = tempfile.mkdtemp(prefix='vfc26')
  try:
    if not flags.FLAGS.is_parsed():
      flags.FLAGS(['x', '--workdir=' + tmp])
    else:
      flags.FLAGS.workdir = tmp

    class Sem:
      def __init__(self):
        self.velocity = types.SimpleNamespace(mesh=types.SimpleNamespace(node_coords=jnp.asarray(rng.rand(5, 2))))

      def B(self, x): return 0.5 * x
      def C(self, u): return jnp.sin(u) / 3 + u / 10   # a contracting step, so that rounding is not amplified

      def stokes_one_step(self, us, ps, f, mu, dt, time_order, **kw):
        u = sum(.6 * jnp.cos((i + 1.3) * v) / (i + 1.3) / len(us) for i, v in enumerate(us)) + f / 5 + mu + dt
        p = sum(.6 * jnp.sin((i + 0.7) * v) / (i + 0.7) / len(ps) for i, v in enumerate(ps)) + jnp.sum(f) / 50
        return u, p, {}
    sem = Sem()
    for H, num, start in chk.n([(3, 23, 0), (3, 0, 7), (4, 10, 20), (3, 9, 5)], [(h, k, s) for h in (3, 4, 5) for k in (0, 1, 9, 10, 11, 30) for s in (0, 13)]):
      us = tuple(jnp.asarray(rng.rand(5, 2)) for _ in range(H))
      ps = tuple(jnp.asarray(rng.rand(4)) for _ in range(H))

      def run(H=H, num=num, start=start, us=us, ps=ps):
        from swirl_fem.navier_stokes import navier_stokes as ns
        uo, po = datagen.one_cycle(sem, start, num, us, ps)
        fs = glob.glob(os.path.join(tmp, '*.hdf5'))
        if len(fs) != 1:
          return f'{len(fs)} files'
        with open(fs[0], 'rb') as g:
          with h5py.File(io.BytesIO(g.read()), 'r') as h:
            rec = {k: np.asarray(h[k]) for k in h}
        os.remove(fs[0])
        u, p = list(us), list(ps)
        R = dict(t=[start * datagen.DT], u=[u[-1]], p=[p[-1]])
        w = np.asarray(ns.extk_coeffs(k=datagen.TIME_ORDER - 1))
        for k in range(1, num + 1):
          hu, hp = u[-H:], p[-H:]
          f = jax.vmap(datagen.forcing)(sem.velocity.mesh.node_coords, hu[-1])
          f = sem.B(f) - sum(float(w[-i]) * sem.C(hu[-i]) for i in range(1, len(w) + 1))
          a, b, _ = sem.stokes_one_step(hu, hp, f, 1 / datagen.REYNOLDS_NUMBER, datagen.DT, 3)
          u.append(a)
          p.append(b)
          if k % 10 == 0:
            R['t'].append((start + k) * datagen.DT)
            R['u'].append(a)
            R['p'].append(b)
        if len(uo) != H or len(po) != H:
          return 'history length'
        for x, y in list(zip(uo, u[-H:])) + list(zip(po, p[-H:])):
          if not np.allclose(x, y, rtol=1e-7, atol=1e-9):
            return 'histories'
        if set(rec) != {'t', 'u', 'p'}:
          return f'recorded {sorted(rec)}'
        for k in rec:
          if len(rec[k]) != len(R[k]) or not np.allclose(rec[k], np.stack([np.asarray(q) for q in R[k]]), rtol=1e-7, atol=1e-9):
            return f'recorded {k}: {rec[k].shape[0]} entries, expected {len(R[k])} or different values'
      chk.case('one cycle', run, dict(history=H, steps=num, start=start))
    names = ('RESOLUTION', 'ORDER', 'NUM_CYCLES', 'NUM_STEPS_PER_CYCLE', 'one_cycle')
    if all(hasattr(datagen, q) for q in names):
      for cycles, per in chk.n([(3, 5), (1, 20)], [(3, 5), (1, 20), (4, 1), (2, 10)]):
        chk.case('driver', lambda cycles=cycles, per=per: driver(cycles, per, names), dict(cycles=cycles, steps_per_cycle=per))
  finally:
    shutil.rmtree(tmp, ignore_errors=True)


def driver(cycles, per, names):
  """the real run_simulation on a small mesh; the cycles are recorded and return histories with distinct entries"""
  import inspect
  from swirl_fem.niles.datagen import datagen
  sig = inspect.signature(datagen.one_cycle)
  saved = {q: getattr(datagen, q) for q in names}
  log = []

  def cycle(*a, **k):
    b = sig.bind(*a, **k).arguments
    start, n, us, ps = int(b['start_step']), int(b['num_steps']), tuple(b['us']), tuple(b['ps'])
    out = tuple(tuple(x + (i + 1) * (1 + start) for i, x in enumerate(h)) for h in (us, ps))
    log.append(dict(start=start, steps=n, us=us, ps=ps, out=out, sem=b['sem']))
    return out
  try:
    datagen.RESOLUTION, datagen.ORDER, datagen.NUM_CYCLES, datagen.NUM_STEPS_PER_CYCLE, datagen.one_cycle = 2, 2, cycles, per, cycle
    datagen.run_simulation()
  finally:
    for q, v in saved.items():
      setattr(datagen, q, v)
  if [(l['start'], l['steps']) for l in log] != [(c * per, per) for c in range(cycles)]:
    return f"cycles run: {[(l['start'], l['steps']) for l in log]}"
  import jax
  sem = log[0]['sem']
  u0 = np.asarray(jax.vmap(datagen.u_init_fn)(sem.velocity.mesh.node_coords))
  if len(log[0]['us']) != datagen.TIME_ORDER or any(not np.allclose(u, u0) for u in log[0]['us']) or any(np.any(p) for p in log[0]['ps']):
    return 'the first cycle does not start from the initial field and zero pressure'
  for a, b in zip(log, log[1:]):
    for nm, x, y in (('velocity', a['out'][0], b['us']), ('pressure', a['out'][1], b['ps'])):
      if len(x) != len(y) or any(not np.array_equal(p, q) for p, q in zip(x, y)):
        return f"the cycle at step {b['start']} is not given the {nm} history the previous cycle returned"

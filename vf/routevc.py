"""The crystal router for every number of devices and every buffer length, from its Python source.

Uses the device functions of vf/scanvc.py. A buffer is known by what it says about one arbitrary item with target T: how many
copies device d holds (a term in d), by the number of its valid entries (a term in d), by its static length, and by whether
its valid entries are intact on d. Masks over the slots of a buffer are pairs: their value at the slots of the item, and at an
arbitrary slot beyond the valid entries. CrystalData.select, __add__ and resize enter by their contracts (obligations of
their own, see `callees`).

Recursion rule for the local function that recurses over the stages, at an arbitrary level l with groups B(l, .), N(l, .):
  requires  the groups are intervals that partition the axis; the item is on one device, in the group of T at the level
            max(l, start stage); lengths count the items; nothing is truncated; the maximal length given fits the buffer
  ensures   if the maximum returned fits: the item is on T and nowhere else, intact, and the maximum bounds every length;
            otherwise: the item is on one device in the group of T at the returned level, which still has groups to split,
            intact, lengths correct: the precondition of a further call
  variant   every group with more than one member shrinks
A rule that cannot be shown inductive refutes nothing: Unsupported.
"""
import ast
import contextlib
import inspect
import itertools
import textwrap
import numpy as np
import z3
from vf.core import Failed, Unsupported, locate
from vf import pyvc, scanvc
from vf.scanvc import BF, NF, SIZE, D0, L0, Dev, Some, boolish, intish, const, lift

T, X = z3.Int('target'), z3.Int('stale_target')
BUF, START = z3.Int('buffer_size'), z3.Int('start_stage')


def fresh(nm):
  return z3.Int(f'{nm}!{next(scanvc._c)}')


def fun(nm, sort=None):
  f = z3.Function(f'{nm}!{next(scanvc._c)}', z3.IntSort(), sort or z3.IntSort())
  return lambda d: f(d)


class Buf:
  """one leaf of a CrystalData"""

  def __init__(self, leaf, cnt, size, ok, dtype):
    self.leaf, self.cnt, self.size, self.ok, self.dtype = leaf, cnt, size, ok, dtype

  @property
  def shape(self):
    return (pyvc.Z(self.size), 'rest')

  def __hash__(self):
    return id(self)

  def __array__(self, *a, **k):
    raise Unsupported('data as an array')


class Num:
  """the valid entries of a buffer: their number on a device, and the item among them"""

  def __init__(self, len_, cnt):
    self.len, self.cnt, self.dtype = len_, cnt, np.dtype('int32')

  def __hash__(self):
    return id(self)


class Slots:
  """0, 1, ..., size-1"""

  def __init__(self, size):
    self.size = size

  def __hash__(self):
    return id(self)


class Mask:
  """over the slots of a device: at the slots of the item; at a slot beyond the valid ones"""

  def __init__(self, at, beyond):
    self.at, self.beyond = at, beyond

  def __hash__(self):
    return id(self)


def masked(op):
  def f(a, b):
    def parts(x):
      if isinstance(x, Mask):
        return x.at, x.beyond
      if isinstance(x, Dev) and x.kind == 'local' and x.data is None:
        return (lambda d: boolish(x.f(d))), (lambda d: boolish(x.f(d)))
      c = const(x)
      if c is not None and z3.is_bool(c):
        return (lambda d: c), (lambda d: c)
      raise Unsupported('mask')
    (p, q), (r, s) = parts(a), parts(b)
    return Mask(lambda d: op(p(d), r(d)), lambda d: op(q(d), s(d)))
  return f


for _n, _op in dict(__and__=z3.And, __or__=z3.Or, __xor__=z3.Xor, __eq__=lambda a, b: a == b, __ne__=z3.Xor).items():
  setattr(Mask, _n, lambda a, b, g=masked(_op): g(a, b))
  if _n[2:-2] in ('and', 'or', 'xor'):
    setattr(Mask, f'__r{_n[2:]}', lambda a, b, g=masked(_op): g(b, a))
Mask.__invert__ = lambda s: Mask(lambda d: z3.Not(s.at(d)), lambda d: z3.Not(s.beyond(d)))


def slot_compare(want):
  def f(s, n):
    if not isinstance(n, Num):
      return NotImplemented
    return Mask(lambda d: z3.BoolVal(want), lambda d: z3.BoolVal(not want))
  return f


Slots.__lt__, Slots.__ge__ = slot_compare(True), slot_compare(False)
Num.__gt__ = lambda n, s: s < n if isinstance(s, Slots) else NotImplemented
Num.__le__ = lambda n, s: s >= n if isinstance(s, Slots) else NotImplemented


def target_compare(op):
  def f(b, x):
    if b.leaf != 0:
      raise Unsupported('a payload is compared')
    if isinstance(x, Dev) and x.kind == 'local':
      g = lambda d: intish(x.f(d))
    else:
      c = const(x)
      if c is None:
        raise Unsupported('comparison of targets')
      g = lambda d: c
    return Mask(lambda d: op(T, g(d)), lambda d: op(X, g(d)))
  return f


for _n, _op in dict(__lt__=lambda a, b: a < b, __le__=lambda a, b: a <= b, __gt__=lambda a, b: a > b, __ge__=lambda a, b: a >= b,
                    __eq__=lambda a, b: a == b, __ne__=lambda a, b: a != b).items():
  setattr(Buf, _n, target_compare(_op))


def pick(c, x, y):
  """per device"""
  f = lambda d: boolish(c.f(d))
  if isinstance(x, Buf) and isinstance(y, Buf):
    if x.leaf != y.leaf or not pyvc.CTX.valid(x.size == y.size):
      raise Unsupported('branches with different buffers')
    return Buf(x.leaf, lambda d: z3.If(f(d), x.cnt(d), y.cnt(d)), x.size, lambda d: z3.If(f(d), x.ok(d), y.ok(d)), x.dtype)
  if isinstance(x, Num) and isinstance(y, Num):
    return Num(lambda d: z3.If(f(d), x.len(d), y.len(d)), lambda d: z3.If(f(d), x.cnt(d), y.cnt(d)))
  if isinstance(x, Mask) or isinstance(y, Mask):
    return masked(lambda p, q: z3.And(z3.Implies(f, p), z3.Implies(z3.Not(f), q)))(x, y)
  return scanvc.where(c, x, y)


class Router(scanvc.Prover):
  """the recursion rule"""

  def __init__(self, wrong=False):
    super().__init__([])
    self.wrong = wrong
    self.balanced = True       # group sizes of a level differ by at most one (checked where the groups are split)
    self.inside = False

  # -- contracts of CrystalData
  def axiom(self, f):
    pyvc.CTX.known.append(f)

  def counts(self, c, what):
    """the length counts the item as every leaf does"""
    d = fresh('d')
    if not isinstance(c.n, Num):
      raise Unsupported('length')
    for k, b in enumerate(c.data):
      if not isinstance(b, Buf) or b.leaf != k:
        raise Unsupported(f'leaves of {what}')
      self.prove(b.cnt(d) == c.n.cnt(d), self.level([d]), f'{what}: the length counts the items')

  def select(self, c, mask, size):
    self.counts(c, 'select')
    size = const(size)
    if not isinstance(mask, Mask) or size is None:
      raise Unsupported('select')
    d = fresh('d')
    self.prove(z3.Not(mask.beyond(d)), self.level([d]), 'entries beyond the length are not selected')
    ln = fun('selected')
    self.axiom(lambda d, m, ln=ln, n=c.n: z3.And(ln(d) >= 0, ln(d) <= n.len(d)))
    return type(c)(data=[Buf(b.leaf, lambda d, b=b: z3.If(mask.at(d), b.cnt(d), 0), size,
                             lambda d, b=b: z3.And(b.ok(d), ln(d) <= size), b.dtype) for b in c.data],
                   n=Num(ln, lambda d, n=c.n: z3.If(mask.at(d), n.cnt(d), 0)))

  def append(self, a, b):
    self.counts(a, 'append')
    self.counts(b, 'append')
    if len(a.data) != len(b.data):
      raise Unsupported('append')
    return type(a)(data=[Buf(x.leaf, lambda d, x=x, y=y: x.cnt(d) + y.cnt(d), x.size,
                             lambda d, x=x, y=y: z3.And(x.ok(d), y.ok(d), a.n.len(d) + y.size <= x.size), x.dtype)
                         for x, y in zip(a.data, b.data)],
                   n=Num(lambda d: a.n.len(d) + b.n.len(d), lambda d: a.n.cnt(d) + b.n.cnt(d)))

  def resize(self, c, size):
    size = const(size)
    if size is None:
      raise Unsupported('resize')
    return type(c)(data=[Buf(b.leaf, b.cnt, size, lambda d, b=b: z3.And(b.ok(d), z3.Or(size >= b.size, c.n.len(d) <= size)), b.dtype)
                         for b in c.data], n=c.n)

  # -- facts
  def level(self, devs, l=L0):
    """instances at the arbitrary level"""
    fs = [SIZE >= 1, T >= 0, T < SIZE, BUF >= 0, START >= 0]
    devs = list({x.get_id(): x for x in list(devs) + pyvc.CTX.somes}.values())
    for d in devs:
      ok = z3.And(d >= 0, d < SIZE)
      fs += [self.groups(l, d, e) for e in devs]
      if self.balanced:
        fs += [z3.Implies(z3.And(ok, e >= 0, e < SIZE), NF(l, d) <= NF(l, e) + 1) for e in devs]
      fs += [z3.Implies(ok, g(d)) for g in pyvc.CTX.every]
      fs += [z3.Implies(ok, a(d, None)) for a in pyvc.CTX.known]
    return fs

  def permutation(self, t):
    if not self.inside:
      raise Unsupported('an exchange outside the stages')
    d, e = fresh('d'), fresh('e')
    ok = [d >= 0, d < SIZE, e >= 0, e < SIZE]
    self.prove(z3.And(t(d) >= 0, t(d) < SIZE, z3.Implies(t(d) == t(e), d == e)), self.level([d, e, t(d), t(e)]) + ok,
               'the exchange is a permutation')

  # -- the recursion
  def rec(self, f):
    sig = inspect.signature(f)

    def call(*a, **k):
      args = sig.bind(*a, **k)
      args.apply_defaults()
      return self.called(f, dict(args.arguments))
    return call

  def roles(self, args):
    d = fresh('d')
    rng = [d >= 0, d < SIZE, SIZE >= 1]
    role = {}
    for x, v in args.items():
      if type(v).__name__ == 'CrystalData':
        role[x] = 'data'
      elif self.is_sts(v):
        g, l = intish(self.at(v.global_, d)), intish(self.at(v.local, d))
        role[x] = 'head' if self.holds(z3.And(g == 0, l == 0), rng) else 'size' if self.holds(z3.And(g == SIZE, l == SIZE), rng) else None
      elif isinstance(v, pyvc.Z):
        role[x] = 'max'
      elif isinstance(v, (int, np.integer)) and not isinstance(v, bool) and v == 0:
        role[x] = 'level'
    if sorted(map(str, role.values())) != ['data', 'head', 'level', 'max', 'size'] or len(role) != len(args):
      raise Unsupported('arguments of the recursion')
    return role

  def item(self, c, w, facts, what, devs):
    """the item is on device w only, intact everywhere; lengths count"""
    d = fresh('d')
    fs = facts + self.level([d] + devs(d))
    ok = z3.And(d >= 0, d < SIZE)
    n = c.n
    if not isinstance(n, Num):
      raise Unsupported('length')
    for k, b in enumerate(c.data):
      if not isinstance(b, Buf) or b.leaf != k:
        raise Unsupported('leaves')
      self.prove(z3.Implies(ok, b.cnt(d) == z3.If(d == w, 1, 0)), fs, f'{what}: the item is on one device')
      self.prove(z3.Implies(ok, b.ok(d)), fs, f'{what}: intact')
      self.prove(b.size == BUF, fs, f'{what}: static length')
    self.prove(z3.Implies(ok, z3.And(n.cnt(d) == z3.If(d == w, 1, 0), n.len(d) >= 0, n.len(d) <= BUF)), fs, f'{what}: lengths')

  def data(self, w):
    """CrystalData with the item on w, intact"""
    ln = fun('length')
    cnt = lambda d: z3.If(d == w, z3.IntVal(1), z3.IntVal(0))
    self.axiom(lambda d, m: z3.And(ln(d) >= 0, ln(d) <= BUF))
    return self.CD(data=[Buf(k, cnt, BUF, lambda d: z3.BoolVal(True), None) for k in range(3)], n=Num(ln, cnt))

  def called(self, f, args):
    c = pyvc.CTX
    if not c.inside:
      role = self.roles(args)
      if c.called:
        raise Unsupported('the recursion is started twice')
      c.called = True
      inv = {r: x for x, r in role.items()}
      # the first call satisfies the precondition
      d = fresh('d')
      mx = args[inv['max']].e
      self.prove(self.groups(None, d, fresh('e'), lambda x: z3.IntVal(0), lambda x: SIZE), [SIZE >= 1], 'one group of all devices')
      self.item(args[inv['data']], self.P0, [], 'first call', lambda d: [])
      self.prove(z3.And(mx <= BUF, z3.Implies(z3.And(d >= 0, d < SIZE), args[inv['data']].n.len(d) <= mx)),
                 self.level([d] + c.wit), 'first call: maximum')
      self.inv = inv
      way = c.choose([('body', None), ('return', None)], 'recursion')
      if way == 'return':
        return self.result(role_i=None)
      # an arbitrary level
      c.inside = self.inside = True
      c.pc[:] = []
      c.known[:], c.every[:], c.wit[:], c.somes[:] = [], [], [], []
      l, p = L0, z3.Int('holder')
      c.holders = [p]
      dd = z3.Int('unsplit')
      mx = fresh('max')
      lv = z3.If(START >= l, START, l)
      for e in (SIZE >= 1, T >= 0, T < SIZE, BUF >= 0, START >= 0, l >= 0, p >= 0, p < SIZE, mx <= BUF,
                z3.If(START >= l, BF(START, p) == BF(START, T), BF(l, p) == BF(l, T)),
                # the start stage is one at which groups remain to be split (or the first), hence also every earlier level
                z3.Or(START == 0, z3.And(dd >= 0, dd < SIZE, z3.Implies(l <= START, NF(l, dd) > 1)))):
        c.assume(e)
      c.wit.append(dd)
      st = {inv['data']: self.data(p), inv['max']: pyvc.Z(mx), inv['level']: pyvc.Z(l),
            inv['head']: self.sts(args[inv['head']], lambda d: BF(l, d)), inv['size']: self.sts(args[inv['size']], lambda d: NF(l, d))}
      n0 = st[inv['data']].n
      self.axiom(lambda d, m: n0.len(d) <= mx)
      self.p, self.template = p, args
      out = f(**st)
      self.post(out)
      raise pyvc.PathEnd('body checked')
    # a call from the body: the precondition one level on, the variant, then the postcondition
    inv = self.inv
    if set(args) != set(inv.values()):
      raise Unsupported('arguments of the recursion')
    d, e = D0, fresh('e')
    head, size = args[inv['head']], args[inv['size']]
    if not self.is_sts(head) or not self.is_sts(size):
      raise Unsupported('groups')
    tb, tn = self.at(head.global_, d), self.at(size.global_, d)
    at = lambda t, x: z3.substitute(t, (D0, x))
    devs = [d, e, at(tb, e), at(tb, d)]
    fs = self.level(devs)
    rng = [d >= 0, d < SIZE, e >= 0, e < SIZE]
    self.prove(z3.And(self.at(head.local, d) == tb, self.at(size.local, d) == tn), fs + rng, 'a device and the host agree on the groups')
    self.prove(self.groups(None, d, e, lambda x: at(tb, x), lambda x: at(tn, x)), fs + rng, 'the groups are intervals and a partition')
    self.prove(z3.And(tn <= NF(L0, d), z3.Implies(NF(L0, d) > 1, tn < NF(L0, d)), tn >= 1), fs + rng, 'the groups shrink')
    if self.balanced:
      self.prove(tn <= at(tn, e) + 1, fs + rng, 'the groups are balanced')
    lv = const(args[inv['level']])
    if lv is None:
      raise Unsupported('level')
    self.prove(lv == L0 + 1, fs, 'levels are counted')
    c = pyvc.CTX
    cd, mx = args[inv['data']], const(args[inv['max']])
    if mx is None:
      raise Unsupported('maximum')
    # where the item is now
    reach, x = [self.p], self.p
    for t in c.perms:
      x = t(x)
      reach += [x] + ([t(self.p)] if t is not c.perms[0] else [])
    w = reach[-1]
    for x in reversed(reach[:-1]):
      w = z3.If(cd.n.cnt(x) == 1, x, w)
    ps = [T, w, at(tb, T)] + reach

    def around(d):
      return [t(d) for t in c.perms] + ps + [BF(L0, d)] + [t(u(d)) for t in c.perms for u in c.perms]
    self.item(cd, w, self.level(ps), 'next level', around)
    fw = self.level(ps + [t(x) for x in reach for t in c.perms] + [BF(L0, T), BF(L0, self.p)])
    nextB = lambda x: at(tb, x)
    self.prove(z3.And(w >= 0, w < SIZE, z3.If(START >= L0 + 1, w == self.p, nextB(w) == nextB(T))), fw, 'next level: the item is in the group of its target')
    d = fresh('d')
    self.prove(z3.And(mx <= BUF, z3.Implies(z3.And(d >= 0, d < SIZE), cd.n.len(d) <= mx)), self.level([d] + [t(d) for t in c.perms]),
               'next level: maximum')
    return self.result(role_i=True)

  def result(self, role_i):
    """what the contract says about a result"""
    c = pyvc.CTX
    w, i, mx, dd = fresh('holder'), fresh('stage'), fresh('max'), fresh('unsplit')
    cd = self.data(w)
    for e in (w >= 0, w < SIZE, z3.Implies(mx <= BUF, w == T),
              z3.Implies(mx > BUF, z3.And(BF(i, w) == BF(i, T), i >= START, dd >= 0, dd < SIZE, NF(i, dd) > 1))):
      c.assume(e)
    c.wit.append(dd)
    n = cd.n
    self.axiom(lambda d, m: z3.Implies(mx <= BUF, n.len(d) <= mx))
    c.holders.append(w)
    return self.shape(cd, pyvc.Z(mx), pyvc.Z(i))

  def shape(self, cd, mx, i):
    return (cd, mx, i)

  def post(self, out):
    if not isinstance(out, tuple) or len(out) != 3 or type(out[0]).__name__ != 'CrystalData':
      raise Unsupported('result of the recursion')
    c = pyvc.CTX
    cd, mx, i = out[0], const(out[1]), const(out[2])
    if mx is None or i is None:
      raise Unsupported('result of the recursion')
    ps = c.holders
    d = fresh('d')
    fs = self.level(c.wit + ps + [T])
    devs = [d] + ps + [T] + c.wit
    goal = None
    for w in ps:
      one = z3.And(cd.n.cnt(d) == z3.If(d == w, 1, 0), *[b.cnt(d) == z3.If(d == w, 1, 0) for b in cd.data])
      target = T + 1 if self.wrong else T
      place = z3.If(mx <= BUF, w == target, z3.And(BF(i, w) == BF(i, T), i >= START, z3.Or(*[z3.And(x >= 0, x < SIZE, NF(i, x) > 1) for x in c.wit + c.somes])))
      g = z3.And(z3.Implies(z3.And(d >= 0, d < SIZE), one), place)
      if self.holds(g, self.level(devs)):
        goal = w
        break
    if goal is None:
      raise Unsupported('not inductive: the item is where the contract says, of the result')
    self.item(cd, goal, fs, 'result', lambda d: devs)
    self.prove(z3.Implies(z3.And(mx <= BUF, d >= 0, d < SIZE), cd.n.len(d) <= mx), self.level(devs), 'the maximum bounds the lengths')


class Lax(scanvc.Lax):
  def pmax(self, x, axis_name):
    self.ax(axis_name)
    if not isinstance(x, Num):
      raise Unsupported('pmax')
    mx, at = fresh('pmax'), fresh('where')
    c = pyvc.CTX
    c.known.append(lambda d, m: x.len(d) <= mx)
    c.assume(z3.And(at >= 0, at < SIZE, mx == x.len(at)))
    for a in list(c.known):
      c.assume(a(at, None))
    return pyvc.Z(mx)

  def pshuffle(self, x, axis_name, perm):
    import jax
    self.ax(axis_name)
    if not isinstance(perm, Dev) or perm.kind != 'global':
      raise Unsupported('permutation')
    t = lambda d: intish(perm.f(d))
    self.vc.permutation(t)
    pyvc.CTX.perms.append(t)

    def one(v):
      if isinstance(v, Buf):
        return Buf(v.leaf, lambda d: v.cnt(t(d)), v.size, lambda d: v.ok(t(d)), v.dtype)
      if isinstance(v, Num):
        return Num(lambda d: v.len(t(d)), lambda d: v.cnt(t(d)))
      raise Unsupported('exchange of something else than data')
    return jax.tree_util.tree_map(one, x)

  def cond(self, pred, t, f, *ops):
    import jax
    if not isinstance(pred, Dev):
      c = pred.e if isinstance(pred, (pyvc.B, pyvc.Z)) else const(pred)
      return (t if pyvc.CTX.branch(boolish(c)) else f)(*ops)
    a, b = t(*ops), f(*ops)
    if jax.tree_util.tree_structure(a) != jax.tree_util.tree_structure(b):
      raise Unsupported('cond')
    return jax.tree_util.tree_map(lambda x, y: pick(pred, x, y), a, b)


class Np(scanvc.Np):
  def arange(self, n, *a, dtype=None, **k):
    if isinstance(n, pyvc.Z) and not a:
      return Slots(n.e)
    return scanvc.arange(n, *a, **k)

  def where(self, c, x, y):
    if isinstance(c, Mask) or isinstance(x, Mask) or isinstance(y, Mask):
      p = masked(z3.And)
      return p(c, x) | p(~c if isinstance(c, Mask) else scanvc.lift(lambda a: z3.Not(boolish(a)), c), y)
    return scanvc.where(c, x, y)

  def _mask2(op):
    def f(self, a, b):
      if isinstance(a, Mask) or isinstance(b, Mask):
        return masked(op)(a, b)
      return lift(lambda x, y: op(boolish(x), boolish(y)), a, b)
    return f
  logical_and, logical_or, logical_xor = _mask2(z3.And), _mask2(z3.Or), _mask2(z3.Xor)

  def logical_not(self, a):
    return ~a if isinstance(a, Mask) else super().logical_not(a)


class Recursive(ast.NodeTransformer):
  """local functions that call themselves are handed to the rule"""

  def __init__(self):
    self.found = []

  def visit_FunctionDef(self, n):
    if getattr(self, 'depth', 0):
      calls = [c for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == n.name]
      if calls:
        self.found.append(n.name)
        return [n] + ast.parse(f'{n.name} = __vc.rec({n.name})').body
      return n
    self.depth = 1
    self.generic_visit(n)
    return n


def recompile(fn, vc):
  fn = inspect.unwrap(fn)
  tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
  r = Recursive()
  tree.body[0].decorator_list = []
  tree = ast.fix_missing_locations(r.visit(tree))
  if len(r.found) != 1:
    raise Unsupported('no single recursion over the stages')
  g = dict(fn.__globals__)
  g['__vc'] = vc
  ns = {}
  exec(compile(tree, inspect.getsourcefile(fn), 'exec'), g, ns)
  f = ns[fn.__name__]
  f.__kwdefaults__, f.__defaults__ = fn.__kwdefaults__, fn.__defaults__
  return f


@contextlib.contextmanager
def patched(vc):
  import jax.numpy as jnp
  from swirl_fem.communication import crystal_router as mod, semi_traced_scalar as sts
  lax, J, P = Lax(vc, None, [], 'i'), Np(jnp), scanvc.Np(np)
  saved = []

  def put(m, n, v):
    saved.append((m, n, m.__dict__.get(n, saved)))
    setattr(m, n, v)
  try:
    for m in (mod, sts):
      for n, v in list(vars(m).items()):
        if v is jnp:
          put(m, n, J)
        elif v is np:
          put(m, n, P)
        elif getattr(v, '__name__', None) == 'jax.lax':
          put(m, n, lax)
      put(m, 'int', lambda x=0, *a: x if isinstance(x, (pyvc.Z, Dev)) else int(x, *a))
      put(m, 'any', scanvc.consume(any, Some))
      put(m, 'all', scanvc.consume(all, scanvc.Every))
      put(m, 'max', scanvc.consume(max, scanvc.AxisMax))
    C = mod.CrystalData
    put(C, 'select', lambda s, mask, size: vc.select(s, mask, size))
    put(C, '__add__', lambda s, o: vc.append(s, o))
    put(C, 'resize', lambda s, size: vc.resize(s, size))
    vc.CD = C
    yield mod
  finally:
    for m, n, v in reversed(saved):
      if v is saved:
        delattr(m, n)
      else:
        setattr(m, n, v)


def loop_contract(wrong=False):
  """_crystal_router_loop (with the stage) for every axis size, buffer size, item and start stage"""
  from swirl_fem.communication import crystal_router as cr
  name = locate(cr, '_crystal_router_loop', ('crystal_data', 'start_stage', 'axis_name', 'buffer_size'))
  vc = Router(wrong)
  ends = [0]

  def run(ctx):
    scanvc._c = itertools.count()
    ctx.every, ctx.somes, ctx.perms, ctx.known, ctx.built, ctx.wit, ctx.holders = [], [], [], [], False, [], []
    ctx.inside = vc.inside = False
    ctx.called = False
    with patched(vc) as mod:
      f = recompile(getattr(mod, name), vc)
      f.__globals__.update({k: v for k, v in vars(mod).items() if not k.startswith('__')})
      vc.P0 = p = z3.Int('holder0')
      dd = z3.Int('unsplit0')
      for e in (SIZE >= 1, T >= 0, T < SIZE, BUF >= 0, START >= 0, p >= 0, p < SIZE, BF(START, p) == BF(START, T)):
        ctx.assume(e)
      cd = vc.data(p)
      ctx.wit.append(dd)
      ctx.holders.append(p)
      out = f(cd, pyvc.Z(START), axis_name='i', buffer_size=pyvc.Z(BUF))
      vc.post(out)
      ends[0] += 1
  try:
    paths = pyvc.explore(run, limit=300)
  except Unsupported as e:
    if 'balanced' not in str(e):
      raise
    vc.balanced, ends[0] = False, 0
    paths = pyvc.explore(run, limit=300)
  if not ends[0]:
    raise Unsupported('no path reaches the end')
  return f'{vc.nobl} verification conditions on {paths} paths'

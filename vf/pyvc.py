"""Verification conditions from the Python source of the real functions.

`instrument` takes the source of a function of /repo, on every run, and recompiles it with its loops cut: a loop becomes
  check the invariant on the state before it; take an arbitrary state satisfying the invariant; then either run one
  arbitrary iteration and check the invariant again (path ends there), or leave the loop in such a state and go on.
Nothing else is changed: the expressions and statements executed are those of the source. `explore` runs the recompiled
function once per path: loop decisions and branches on symbolic conditions (decided by z3 when the path condition settles
them). Symbolic values are ordinary Python objects (proxies) handed to the function.
"""
import ast, copy, functools, inspect, textwrap, types
from vf.core import Failed, Unsupported


class PathEnd(Exception):
  """end of a path: the invariant has been checked, or the path is infeasible"""


# ---------------------------------------------------------------- symbolic integers
class Z:
  """A mathematical integer (z3 expression)."""
  __slots__ = ('e',)

  def __init__(self, e):
    self.e = e

  def __hash__(self):
    return hash(self.e)

  def __bool__(self):
    return CTX.branch(self.e != 0)

  def __format__(self, spec):
    return f'<{self.e}>'

  def __repr__(self):
    return f'Z({self.e})'

  def __index__(self):
    raise Unsupported('a symbolic integer is used as a concrete one')


class B:
  """A symbolic condition."""
  __slots__ = ('e',)

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return CTX.branch(self.e)

  def __and__(self, o):
    return B(z3().And(self.e, bexp(o)))

  def __or__(self, o):
    return B(z3().Or(self.e, bexp(o)))

  def __invert__(self):
    return B(z3().Not(self.e))
  __rand__, __ror__ = __and__, __or__


def z3():
  import z3 as m
  return m


def zexp(x):
  if isinstance(x, Z):
    return x.e
  if isinstance(x, bool):
    return z3().IntVal(int(x))
  try:
    import operator
    return z3().IntVal(operator.index(x))
  except TypeError:
    return None


def bexp(x):
  if isinstance(x, B):
    return x.e
  return z3().BoolVal(bool(x))


def _install():
  def ar(f):
    def g(a, b):
      x, y = zexp(a), zexp(b)
      if x is None or y is None:
        return NotImplemented
      return f(x, y)
    return g
  def div(a, b, mod):
    m = z3()
    # Python floors; z3 rounds so that the remainder is not negative
    if CTX is None or not CTX.valid(b > 0):
      raise Unsupported('division by something not known to be positive')
    return Z(a % b) if mod else Z(a / b)
  ops = dict(add=lambda a, b: Z(a + b), sub=lambda a, b: Z(a - b), mul=lambda a, b: Z(a * b),
             floordiv=lambda a, b: div(a, b, False), mod=lambda a, b: div(a, b, True))
  for nm, f in ops.items():
    setattr(Z, f'__{nm}__', ar(f))
    setattr(Z, f'__r{nm}__', ar(lambda a, b, f=f: f(b, a)))
  for nm, f in dict(lt=lambda a, b: a < b, le=lambda a, b: a <= b, gt=lambda a, b: a > b, ge=lambda a, b: a >= b,
                    eq=lambda a, b: a == b, ne=lambda a, b: a != b).items():
    setattr(Z, f'__{nm}__', ar(lambda a, b, f=f: B(f(a, b))))
  Z.__neg__ = lambda s: Z(-s.e)


_install()


# ---------------------------------------------------------------- paths
CTX = None


class Ctx:
  """One path: decisions made so far (a prefix to replay, then new ones) and the path condition."""

  def __init__(self, prefix):
    self.prefix, self.trace, self.pc = list(prefix), [], []
    self.pending = []

  def solver(self):
    s = z3().Solver()
    s.set('timeout', 20000)
    s.add(*self.pc)
    return s

  def assume(self, e):
    self.pc.append(e)

  def valid(self, e):
    s = self.solver()
    s.add(z3().Not(e))
    return s.check() == z3().unsat

  def require(self, e, what):
    s = self.solver()
    s.add(z3().Not(e))
    r = s.check()
    if r == z3().sat:
      raise Failed(f'{what}', model=None if not s.model().decls() else {str(d): str(s.model()[d]) for d in s.model().decls()})
    if r != z3().unsat:
      raise Unsupported('z3: unknown: ' + what)

  def choose(self, options, tag):
    """options: list of (label, condition or None); explores each feasible one"""
    k = len(self.trace)
    if k > 600:
      raise Unsupported('too many decisions on a path')
    if k < len(self.prefix):
      c = self.prefix[k]
    else:
      feas = []
      for j, (lab, cond) in enumerate(options):
        if cond is None:
          feas.append(j)
          continue
        s = self.solver()
        s.add(cond)
        if s.check() != z3().unsat:
          feas.append(j)
      if not feas:
        raise PathEnd('infeasible')
      c = feas[0]
      for j in feas[1:]:
        self.pending.append([t for t in self.trace] + [j])
    self.trace.append(c)
    cond = options[c][1]
    if cond is not None:
      self.pc.append(cond)
    return options[c][0]

  def branch(self, e):
    e = z3().simplify(e)
    if z3().is_true(e):
      return True
    if z3().is_false(e):
      return False
    return self.choose([(True, e), (False, z3().Not(e))], 'branch')


def explore(run, limit=2000):
  """runs `run(ctx)` once per path; returns the number of paths"""
  global CTX
  todo, n = [[]], 0
  while todo:
    pre = todo.pop()
    ctx = CTX = Ctx(pre)
    try:
      run(ctx)
    except PathEnd:
      pass
    finally:
      CTX = None
    todo.extend(ctx.pending)
    n += 1
    if n > limit:
      raise Unsupported('too many paths')
  return n


# ---------------------------------------------------------------- instrumentation
class Names(ast.NodeVisitor):
  """names (re)bound or possibly mutated in a loop body"""

  def __init__(self):
    self.bound, self.mut = set(), set()

  def visit_Name(self, n):
    if isinstance(n.ctx, (ast.Store, ast.Del)):
      self.bound.add(n.id)

  def base(self, n):
    while isinstance(n, (ast.Attribute, ast.Subscript, ast.Call)):
      n = n.func if isinstance(n, ast.Call) else n.value
    return n.id if isinstance(n, ast.Name) else None

  def visit_Call(self, n):
    if isinstance(n.func, ast.Attribute):
      b = self.base(n.func)
      if b:
        self.mut.add(b)
    self.generic_visit(n)

  def visit_Subscript(self, n):
    if isinstance(n.ctx, ast.Store):
      b = self.base(n)
      if b:
        self.mut.add(b)
    self.generic_visit(n)

  def visit_Attribute(self, n):
    if isinstance(n.ctx, ast.Store):
      b = self.base(n)
      if b:
        self.mut.add(b)
    self.generic_visit(n)

  def visit_FunctionDef(self, n):
    self.bound.add(n.name)

  def visit_Lambda(self, n):
    pass

  def visit_ListComp(self, n):
    pass
  visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


class Cutter(ast.NodeTransformer):

  def __init__(self, which, local=None):
    self.k, self.which, self.loops, self.local = 0, which, [], local

  def visit_FunctionDef(self, n):
    if getattr(self, 'depth', 0):
      return n                       # nested functions are left as they are
    self.depth = 1
    self.generic_visit(n)
    return n

  def visit_For(self, n):
    return self.loop(n)

  def visit_While(self, n):
    return self.loop(n)

  def loop(self, n):
    k = self.k
    self.k += 1
    if self.which is not None and k not in self.which:
      self.generic_visit(n)
      return n
    if n.orelse:
      raise Unsupported('loop with else')
    nm = Names()
    for s in n.body:
      nm.visit(s)
    if isinstance(n, ast.For):
      nm.visit(n.target)
    if self.local is not None:
      nm.mut &= self.local
    self.loops.append((k, sorted(nm.bound), sorted(nm.mut)))
    self.generic_visit(n)
    names = sorted(nm.bound | nm.mut)
    P = lambda src: ast.parse(src).body
    it = '__vc_iter%d' % k
    pre = []
    if isinstance(n, ast.For):
      pre.append(ast.Assign(targets=[ast.Name(it, ast.Store())], value=n.iter))
    else:
      pre += P(f'{it} = None')
    pre += P(f'__vc_st = __vc.enter({k}, {it}, locals(), {names!r})')
    for x in names:
      pre += P(f'if {x!r} in __vc_st: {x} = __vc_st[{x!r}]')
    body = n.body
    end = lambda: P(f'__vc.end({k}, locals(), {names!r})')

    class Cont(ast.NodeTransformer):
      def visit_Continue(s, m):
        return end()

      def visit_For(s, m):
        return m
      visit_While = visit_FunctionDef = visit_Lambda = visit_For
    body = [Cont().visit(s) for s in body]
    body = [q for s in body for q in (s if isinstance(s, list) else [s])]
    one = ast.For(target=n.target if isinstance(n, ast.For) else ast.Name(f'__vc_x{k}', ast.Store()),
                  iter=ast.parse(f'__vc.iterate({k}, {it})', mode='eval').body, body=[], orelse=[])
    if isinstance(n, ast.While):
      test = ast.If(test=ast.UnaryOp(ast.Not(), n.test), body=P(f'__vc.infeasible({k})'), orelse=[])
      one.body = [test] + body + end()
      post = [ast.If(test=ast.BoolOp(ast.And(), [ast.parse(f'__vc.left({k})', mode='eval').body, n.test]),
                     body=P(f'__vc.infeasible({k})'), orelse=[])]
    else:
      one.body = body + end()
      post = []
    return pre + [one] + post


def instrument(fn, vc, which=None, patch=None):
  """The function recompiled from its current source with its loops cut; `patch`: names replaced by contracts."""
  fn = inspect.unwrap(fn)
  src = textwrap.dedent(inspect.getsource(fn))
  tree = ast.parse(src)
  d = tree.body[0]
  if not isinstance(d, ast.FunctionDef):
    raise Unsupported('not a plain function')
  d.decorator_list = []
  c = Cutter(which, set(fn.__code__.co_varnames) | set(fn.__code__.co_cellvars))
  tree = ast.fix_missing_locations(c.visit(tree))
  g = dict(fn.__globals__)
  g.update(patch or {})
  g['__vc'] = vc
  if fn.__closure__:
    for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
      g.setdefault(nm, cell.cell_contents)
  code = compile(tree, inspect.getsourcefile(fn) or '<repo>', 'exec')
  ns = {}
  exec(code, g, ns)
  f = ns[d.name]
  f.__kwdefaults__, f.__defaults__ = fn.__kwdefaults__, fn.__defaults__
  f.vc_loops = c.loops
  return f


class Loops:
  """Base of the invariant providers. Subclasses define, per loop k:
    entry(k, it, loc, names) -> dict of the state of an arbitrary iteration (after checking that the invariant holds initially)
    element(k, it)           -> the element of the arbitrary iteration (for loops); may assume on the context
    step(k, loc)             -> checks the invariant after the iteration
    exit(k, it, loc, names)  -> dict of the state in which the loop is left
  """

  def __init__(self):
    self.mode = {}

  def enter(self, k, it, loc, names):
    loc = {q: v for q, v in loc.items() if not q.startswith('__vc')}
    st = self.entry(k, it, loc, names)
    m = CTX.choose([('iterate', None), ('exit', None)], f'loop {k}')
    self.mode[k] = m
    if m == 'exit':
      st = self.exit(k, it, loc, names)
    return st

  def iterate(self, k, it):
    if self.mode[k] == 'iterate':
      yield self.element(k, it)
      raise Unsupported('the loop body ended without a check')

  def end(self, k, loc, names):
    self.step(k, {q: v for q, v in loc.items() if not q.startswith('__vc')})
    raise PathEnd('iteration checked')

  def left(self, k):
    return self.mode[k] == 'exit'

  def infeasible(self, k):
    raise PathEnd('infeasible')

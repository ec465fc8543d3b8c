"""jit_distributed for every signature: the Python source on a call with a symbolic list of parameters.

The source of jit_distributed.py is recompiled on every run; comprehensions over a symbolic collection of names are evaluated at
one generic name (a z3 constant of an uninterpreted sort), which describes them for every name. Collections of names are
predicates, mappings are (domain, value) functions of the name. inspect, shard_map, vmap and jit are represented by contracts:

  signature(f).bind(*args, **kwargs).apply_defaults(): one value per parameter, the one Python binds; .args, .kwargs: a call with
    them binds every parameter to its entry of .arguments
  shard_map(h, mesh, in_specs=P(axis), out_specs=P(axis)): h on every device of the axis, on its block of the leading axis (of
    length one, as the leading axes have the size of the axis); the results concatenated along the leading axis, in order
  vmap(h, in_axes=0): h on every entry of the leading axis, results stacked
  jit(h, static_argnames): h; static arguments arrive as they are
Trees without leaves are their own slices.
"""
import ast
import functools
import inspect
import itertools
import types
import z3
from vf.core import Failed, Unsupported
from vf import pyvc, nodalvc

NAME, VAL, DEV = z3.DeclareSort('Name'), z3.DeclareSort('Value'), z3.DeclareSort('Device')
PARAM = z3.Function('is_parameter', NAME, z3.BoolSort())
KIND = z3.Function('kind', NAME, z3.IntSort())
EXPLICIT = z3.Function('named_static', NAME, z3.BoolSort())
SLICE, BLOCK = z3.Function('slice', VAL, DEV, VAL), z3.Function('block', VAL, DEV, VAL)
D, X = z3.Const('device', DEV), z3.Const('name', NAME)
_c = itertools.count()


def no(what):
  raise Unsupported(what)


class Nm:
  """a name"""

  def __init__(self, e):
    self.e = e

  def __hash__(self):
    no('a symbolic name is hashed')

  def __eq__(self, o):
    return pyvc.B(self.e == o.e) if isinstance(o, Nm) else no('a name compared with something else')

  def __ne__(self, o):
    return pyvc.B(self.e != o.e) if isinstance(o, Nm) else no('a name compared with something else')

  def __str__(self):
    no('text of a name')
  __repr__ = __format__ = __str__


class Val:
  """a value"""

  def __init__(self, e):
    self.e = e


class Kind:

  def __init__(self, e):
    self.e = e

  def __hash__(self):
    no('a symbolic kind is hashed')

  def __eq__(self, o):
    return pyvc.B(self.e == int(o)) if isinstance(o, int) else no('kind')

  def __ne__(self, o):
    return pyvc.B(self.e != int(o)) if isinstance(o, int) else no('kind')


class Param:
  POSITIONAL_ONLY, POSITIONAL_OR_KEYWORD, VAR_POSITIONAL, KEYWORD_ONLY, VAR_KEYWORD = [
      inspect.Parameter.POSITIONAL_ONLY, inspect.Parameter.POSITIONAL_OR_KEYWORD, inspect.Parameter.VAR_POSITIONAL,
      inspect.Parameter.KEYWORD_ONLY, inspect.Parameter.VAR_KEYWORD]

  def __init__(self, x):
    self.name, self.kind = Nm(x), Kind(KIND(x))


class Names:
  """a collection of distinct names"""

  def __init__(self, pred):
    self.pred = pred

  def __hash__(self):
    no('hash')

  def __iter__(self):
    no('iteration over the names')

  def __len__(self):
    no('number of names')
  __bool__ = __len__

  def __contains__(self, x):
    if not isinstance(x, Nm):
      no('something else in a set of names')
    return pyvc.CTX.branch(self.pred(x.e))

  def _op(self, o, f):
    o = names(o)
    return Names(lambda x: f(self.pred(x), o.pred(x)))

  def __sub__(self, o):
    return self._op(o, lambda a, b: z3.And(a, z3.Not(b)))

  def __or__(self, o):
    return self._op(o, z3.Or)

  def __and__(self, o):
    return self._op(o, z3.And)
  difference, union, intersection = __sub__, __or__, __and__

  def each(self, x):
    return Nm(x)


def names(o):
  if isinstance(o, Names):
    return o
  if isinstance(o, Map):
    return Names(o.dom)
  if isinstance(o, (set, frozenset, list, tuple)) and not o:
    return Names(lambda x: z3.BoolVal(False))
  no('not a collection of names')


class Items:

  def __init__(self, m, what):
    self.m, self.what = m.copy(), what
    self.pred = m.dom

  def __iter__(self):
    no('iteration over the parameters')

  def each(self, x):
    v = self.m.at(x)
    return (Nm(x), v) if self.what == 'items' else v


class Map:
  """a mapping from names, in the order of the signature"""

  def __init__(self, dom, at):
    self.dom, self.at, self.version = dom, at, 0

  def items(self):
    return Items(self, 'items')

  def values(self):
    return Items(self, 'values')

  def keys(self):
    return Names(self.dom)

  def __iter__(self):
    no('iteration over a mapping')
  __len__ = __bool__ = __iter__

  def each(self, x):
    return Nm(x)

  @property
  def pred(self):
    return self.dom

  def __contains__(self, x):
    return x in Names(self.dom)

  def copy(self):
    return Map(self.dom, self.at)

  def __getitem__(self, x):
    if not isinstance(x, Nm) or not pyvc.CTX.proves(self.dom(x.e)):
      no('an entry that may be absent')
    return self.at(x.e)

  def update(self, o):
    if not isinstance(o, Map):
      no('update')
    x = z3.Const(f'x!{next(_c)}', NAME)
    if not pyvc.CTX.proves(z3.Implies(o.dom(x), self.dom(x))):
      no('update with new names')
    dom, at = o.dom, self.at
    new = o.at

    def joined(y):
      a, b = new(y), at(y)
      return Val(z3.If(dom(y), a.e, b.e))
    self.at = joined
    self.version += 1

  def __or__(self, o):
    m = self.copy()
    m.update(o)
    return m


class Bound:

  def __init__(self, sig, call):
    self.sig, self.call, self.signature = sig, call, sig
    given = z3.Function(f'given{call}', NAME, z3.BoolSort())
    value = z3.Function(f'bound{call}', NAME, VAL)
    self.arguments = Map(lambda x: z3.And(PARAM(x), given(x)), lambda x: Val(value(x)))

  def apply_defaults(self):
    m = self.arguments
    m.dom, m.version = PARAM, m.version + 1
    # given values stay, the others are the defaults: both are bound(x)

  @property
  def args(self):
    return (('args', self, self.arguments, self.arguments.version, self.arguments.dom, self.arguments.at),)

  @property
  def kwargs(self):
    return {'kwargs of the call': ('kwargs', self, self.arguments, self.arguments.version)}


class Sig:

  def __init__(self, run):
    self.run = run
    self.parameters = Map(PARAM, Param)

  def bind(self, *a, **k):
    if len(a) != 1 or list(k) != ['rest'] or a[0] is not self.run.marks[0] or k['rest'] is not self.run.marks[1]:
      no('not shown: bind of other arguments')
    return Bound(self, self.run.call)


class Result:

  def __init__(self, dom, at):
    self.dom, self.at = dom, at


class Block:
  """results with a leading axis of length one"""

  def __init__(self, r):
    self.r = r


class Stacked:
  """results of all devices along the leading axis"""

  def __init__(self, r):
    self.r = r


class Leaves:

  def __init__(self, e):
    self.e = e

  def __bool__(self):
    return pyvc.CTX.branch(self.e)

  def __len__(self):
    return 1 if bool(self) else 0

  def __iter__(self):
    no('leaves')


class Run:
  """contracts of the functions called, for one use of jit_distributed"""

  def __init__(self, mod):
    self.mod, self.calls, self.device, self.leafless = mod, 0, None, None
    self.mesh, self.axis = object(), object()

  def f(self, *a, **k):
    if len(a) != 1 or not isinstance(a[0], tuple) or a[0][:1] != ('args',) or list(k) != ['kwargs of the call']:
      no('a call with other arguments')
    _, b, m, ver, dom, at = a[0]
    _, b2, m2, ver2 = k['kwargs of the call']
    if b is not b2 or m is not m2 or ver != ver2:
      no('a call with the arguments of two bindings')
    if self.device is None:
      no('not shown: the function is called on no device')
    self.called += 1
    return Result(dom, at)

  def tree_leaves(self, t):
    if not isinstance(t, Map):
      no('leaves of something else')
    e = z3.Bool(f'leaf!{next(_c)}')
    # a tree without leaves is its own slices; the entry X stands for every name
    v = t.at(X).e
    pyvc.CTX.pc.append(z3.Implies(z3.And(z3.Not(e), t.dom(X)), SLICE(v, D) == v))
    return Leaves(e)

  def shard_map(self, h, mesh=None, in_specs=None, out_specs=None, **k):
    if set(k) - {'check_rep', 'check_vma'}:
      no('shard_map')
    if mesh is not self.mesh:
      no('not shown: the mesh')

    def ok(s):
      from jax.sharding import PartitionSpec
      if isinstance(s, tuple) and not isinstance(s, PartitionSpec) and len(s) == 1:
        s = s[0]
      return isinstance(s, PartitionSpec) and tuple(s) == (self.axis,)

    def run(*args):
      if (args and not ok(in_specs)) or not ok(out_specs):
        no('not shown: sharded along the axis')
      if self.device is not None:
        no('shard_map inside another')
      self.device = D
      try:
        r = h(*[Map(a.dom, lambda x, at=a.at: Val(BLOCK(at(x).e, D))) if isinstance(a, Map) else no('shard_map of something else') for a in args])
      finally:
        self.device = None
      if not isinstance(r, Block):
        no('not shown: results with a leading axis')
      return Stacked(r.r)
    return run

  def vmap(self, h, in_axes=0, out_axes=0, **k):
    if k:
      no('vmap')

    def zero(a):
      return a == 0 if isinstance(a, int) else isinstance(a, (tuple, list)) and all(x == 0 for x in a)

    def entry(a):
      if isinstance(a, Map):
        inner = a.at

        def at(x):
          e = inner(x).e
          if not (z3.is_app(e) and e.decl().eq(BLOCK)):
            no('not shown: vmap over a block')
          return Val(SLICE(e.arg(0), e.arg(1)))
        return Map(a.dom, at)
      if getattr(a, 'shape', None) and a.shape[0] == 1:
        return a[0]
      no('vmap over something else')

    def run(*args):
      if not zero(in_axes) or not zero(out_axes):
        no('not shown: the leading axis')
      r = h(*[entry(a) for a in args])
      if not isinstance(r, Result):
        no('vmap of something else')
      return Block(r)
    return run

  def jit(self, h=None, static_argnames=None, static_argnums=None, **k):
    if h is None:
      return functools.partial(self.jit, static_argnames=static_argnames, static_argnums=static_argnums, **k)
    if static_argnums is not None or k:
      no('jit')
    self.jitted = (h, names(static_argnames if static_argnames is not None else ()))
    return self.jitted


class Transform:

  def __init__(self, vc):
    self.vc = vc

  def same(self, a, b):
    return bool(a == b) if isinstance(a, Kind) or isinstance(b, Kind) else a is b

  def comp(self, kind, it, cond, elt):
    if not isinstance(it, (Names, Map, Items)):
      xs = [elt(x) for x in it if cond(x)]
      return {'list': list, 'set': set, 'gen': iter, 'dict': dict}[kind](xs)
    x = z3.Const(f'x!{next(_c)}', NAME)
    c = pyvc.CTX
    it = it.copy() if isinstance(it, Map) else it
    keep, pred = c.pc, it.pred
    c.pc = list(keep) + [pred(x)]
    try:
      cs = self.vc.cases(lambda: bool(cond(it.each(x))))
      keyval = self.vc.cases(lambda: elt(it.each(x)))
    finally:
      c.pc = keep
    if len(keyval) != 1:
      no('an element that depends on the name')
    k = keyval[0][1]
    k = k[0] if kind == 'dict' else k
    if not isinstance(k, Nm) or k.e.get_id() != x.get_id():
      no('elements that are not the names')
    when = z3.Or(*[z3.And(*p) if p else z3.BoolVal(True) for p, v in cs if v] + [z3.BoolVal(False)])
    dom = lambda y: z3.And(pred(y), z3.substitute(when, (x, y)))
    if kind == 'dict':
      return Map(dom, lambda y: elt(it.each(y))[1])
    return Names(dom)


class Rewriter(ast.NodeTransformer):

  def comp(self, node, kind):
    self.generic_visit(node)
    if len(node.generators) != 1 or node.generators[0].is_async:
      return node
    g = node.generators[0]
    elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == 'dict' else node.elt
    cond = ast.BoolOp(ast.And(), g.ifs) if len(g.ifs) > 1 else g.ifs[0] if g.ifs else ast.Constant(True)
    return ast.copy_location(ast.Call(func=ast.Attribute(ast.Name('_vc_', ast.Load()), 'comp', ast.Load()), args=[
        ast.Constant(kind), g.iter, nodalvc.lambda_of(g.target, cond), nodalvc.lambda_of(g.target, elt)], keywords=[]), node)

  def visit_ListComp(self, node):
    return self.comp(node, 'list')

  def visit_SetComp(self, node):
    return self.comp(node, 'set')

  def visit_GeneratorExp(self, node):
    return self.comp(node, 'gen')

  def visit_DictComp(self, node):
    return self.comp(node, 'dict')

  def visit_Compare(self, node):
    self.generic_visit(node)
    if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
      call = ast.Call(func=ast.Attribute(ast.Name('_vc_', ast.Load()), 'same', ast.Load()), args=[node.left, node.comparators[0]], keywords=[])
      return ast.copy_location(call if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), call), node)
    return node


class Space:
  """a module with some functions replaced"""

  def __init__(self, real, **k):
    self.__dict__.update(k)
    self._real = real

  def __getattr__(self, nm):
    return getattr(self._real, nm)


def recompiled(mod, vc, run):
  import jax
  from jax.experimental import shard_map as sm
  tree = ast.fix_missing_locations(Rewriter().visit(ast.parse(inspect.getsource(mod))))
  m = types.ModuleType(mod.__name__)
  m.__dict__.update(__file__=mod.__file__, _vc_=Transform(vc))
  exec(compile(tree, mod.__file__, 'exec'), m.__dict__)
  tree_util = Space(jax.tree_util, tree_leaves=run.tree_leaves)
  jx = Space(jax, jit=run.jit, vmap=run.vmap, tree_util=tree_util, tree=Space(jax.tree, leaves=run.tree_leaves))
  if hasattr(jax, 'shard_map'):
    jx.shard_map = run.shard_map
  sig = lambda f, **k: run.sig if f == run.f or f is run.stub else no('signature of something else')
  real_shard_map = [sm.shard_map] + ([jax.shard_map] if hasattr(jax, 'shard_map') else [])
  for n, v in list(vars(m).items()):
    if v is jax:
      setattr(m, n, jx)
    elif v is inspect:
      setattr(m, n, Space(inspect, signature=sig))
    elif v is inspect.signature:
      setattr(m, n, sig)
    elif any(v is s for s in real_shard_map):
      setattr(m, n, run.shard_map)
    elif v is jax.vmap:
      setattr(m, n, run.vmap)
    elif v is jax.jit:
      setattr(m, n, run.jit)
    elif v is jax.tree_util:
      setattr(m, n, tree_util)
    elif v is jax.tree_util.tree_leaves:
      setattr(m, n, run.tree_leaves)
  coll = lambda real: lambda x=(): x if isinstance(x, Names) else names(x) if isinstance(x, Map) else real(x)
  for n, real in dict(set=set, frozenset=frozenset, list=list, tuple=tuple, sorted=sorted).items():
    m.__dict__.setdefault(n, coll(real))
  m.__dict__.setdefault('dict', lambda x=(), **k: x.copy() if isinstance(x, Map) and not k else dict(x, **k))
  return m


def contract(explicit, wrong=False):
  """jit_distributed(f, mesh, axis[, static_argnames]) and two calls of the result"""
  from swirl_fem.communication import jit_distributed as mod
  vc = nodalvc.VC()
  static = (lambda x: EXPLICIT(x)) if explicit else (lambda x: z3.And(PARAM(x), KIND(x) == int(inspect.Parameter.KEYWORD_ONLY)))
  vc.pc0 = []
  ends = [0]

  def go():
    c = pyvc.CTX
    run = Run(mod)
    run.sig = Sig(run)

    def stub(*a, **k):
      return run.f(*a, **k)
    run.stub = stub
    m = recompiled(mod, vc, run)
    x = X
    if explicit:
      # names of parameters
      c.pc.append(z3.Implies(EXPLICIT(x), PARAM(x)))
    kw = dict(static_argnames=Names(EXPLICIT)) if explicit else {}
    got = m.jit_distributed(stub, run.mesh, run.axis, **kw)
    if got is not getattr(run, 'jitted', None):
      no('not a compiled function')
    h, st = got
    if inspect.signature(h, follow_wrapped=True) != inspect.signature(stub) or getattr(h, '__wrapped__', None) is not stub:
      no('not shown: the compiled function has the signature of the original')
    show(z3.Implies(PARAM(x), st.pred(x) == static(x)), 'the static arguments')
    for call in (1, 2):
      run.call, run.marks, run.called = call, (object(), object()), 0
      r = h(run.marks[0], rest=run.marks[1])
      if not isinstance(r, Stacked) or not isinstance(r.r, Result):
        no('not shown: results of all devices')
      value = z3.Function(f'bound{call}', NAME, VAL)(x)
      show(r.r.dom(x) == PARAM(x), 'every parameter is bound')
      want = z3.If(static(x) if not wrong else z3.BoolVal(False), value, SLICE(value, D))
      show(z3.Implies(PARAM(x), r.r.at(x).e == want), 'static arguments as they are, the others by slices')
      ends[0] += 1

  def show(e, what):
    vc.nobl += 1
    if not pyvc.CTX.proves(e):
      raise Unsupported(f'not shown: {what}')
  n = len(vc.cases(go))
  if not ends[0]:
    raise Unsupported('no path ends')
  return f'{vc.nobl} verification conditions on {n} paths'

"""Verification conditions for host code over symbolic arrays, lists, sets and dictionaries.

The function is recompiled from its current source on every run. A loop or comprehension over a symbolic collection is
replaced by the loop rule with an accumulation invariant: every container holds what it held before the loop plus the
contributions of the iterations done so far. The contribution of one arbitrary iteration is what the body itself does
(it is run once per path for a generic element, with the conditions on the path); a container that is read in the same
loop is read in the state given by the invariant, and the invariant is then checked to be preserved. Anything else that is
carried from one iteration to the next is outside the accepted subset (Unsupported).

Integers are mathematical. Containers are described by quantified axioms over uninterpreted functions; z3 decides.
"""
import ast, inspect, textwrap
from vf import pyvc
from vf.core import Failed, Unsupported
from vf.pyvc import Z, B, PathEnd, zexp, bexp, z3

I = lambda: z3().IntSort()
MS = [20000, 8000]      # time limits of one obligation: instantiation by patterns, then model-based


# ---------------------------------------------------------------- paths
class Ctx(pyvc.Ctx):

  def __init__(self, prefix, store):
    super().__init__(prefix)
    self.store, self.axs, self.facts, self.frames, self.params, self.n = store, [], [], [], [], 0
    self.cache, self.boxes, self.tag, self.q = {}, {}, None, 0

  def solver(self, ms=15000, mbqi=True):
    s = z3().Solver()
    s.set('timeout', ms)
    if not mbqi:
      s.set('smt.mbqi', False)
    s.add(*self.axs)
    s.add(*self.facts)
    s.add(*self.pc)
    return s

  @property
  def dry(self):
    return any(f.mode == 'discover' for f in self.frames)

  def name(self, nm):
    if self.tag is not None:      # a definition: named by what it defines
      self.tag[1] += 1
      return f"{nm}@{self.tag[0]}#{self.tag[1]}"
    self.n += 1
    return f"{nm}@{'.'.join(map(str, self.trace))}#{self.n}"

  def define(self, what, binders, exprs, make):
    """definitions of new symbols from `exprs`: they are named by their content and depend on the loop elements in it"""
    import hashlib
    if self.tag is not None:
      raise Unsupported('nested definition')
    free = {}
    for e in exprs:
      consts(e, free)
    mine = {str(b) for b in binders}
    ps = [p for p in self.params if str(p) in free]
    known = mine | {str(p) for p in ps}
    for nm in free:
      if nm not in known and (nm.startswith('b_') or nm.startswith('j!')):
        raise Unsupported(f'a definition under the binder of another collection')
    h = hashlib.sha256(('%s|%s|%s' % (what, [str(p) for p in ps], [e.sexpr() for e in exprs])).encode()).hexdigest()[:12]
    k = ('def', h)
    if k not in self.cache:
      old, self.params = self.params, ps
      self.tag = [h, 0]
      try:
        self.cache[k] = make()
      finally:
        self.params, self.tag = old, None
    return self.cache[k]

  def const(self, nm):
    return z3().Int(self.name(nm))

  def fn(self, nm, nargs, ret=None):
    """a new function symbol; it depends on the elements of the enclosing loops"""
    m = z3()
    ps = list(self.params)
    f = m.Function(self.name(nm), *[I()] * (len(ps) + nargs), I() if ret is None else ret) if ps or nargs else None
    if f is None:
      c = m.Const(self.name(nm), I() if ret is None else ret)
      return lambda: c
    return lambda *a: f(*ps, *a)

  def axiom(self, vs, body, pat=None):
    """∀vs. body; holds whatever the path (a definition of new symbols)"""
    self.axs.append(forall(vs, body, pat))
    for f in self.frames:
      f.axioms.append((list(vs), body, pat))

  def require(self, e, what):
    if self.dry:
      return
    m = z3()
    s = self.solver(MS[0], False)
    s.add(m.Not(e))
    r = s.check()
    if r != m.unsat:
      s = self.solver(MS[1])
      s.add(m.Not(e))
      r = s.check()
    if r == m.sat:
      raise Failed(what, model={str(d): str(s.model()[d])[:200] for d in s.model().decls()[:12]})
    if r != m.unsat:
      raise Unsupported('z3: unknown: ' + what)

  def known(self, e, ms=3000):
    """is e implied?"""
    self.q += 1
    k = ('q', tuple(self.trace), self.q)
    if k not in self.store:
      s = self.solver(ms, False)
      s.add(z3().Not(e))
      self.store[k] = s.check() == z3().unsat
    return self.store[k]

  def valid(self, e):
    return self.known(e)

  def choose(self, options, tag):
    m = z3()
    k = len(self.trace)
    if k < len(self.prefix):
      c = self.prefix[k]
    else:
      feas = []
      for j, (_, cond) in enumerate(options):
        if cond is not None:
          s = self.solver(80, False)
          s.add(cond)
          if s.check() == m.unsat:
            continue
        feas.append(j)
      if not feas:
        raise PathEnd('infeasible')
      c = feas[0]
      for j in reversed(feas[1:]):
        self.pending.append(list(self.trace) + [j])
    self.trace.append(c)
    if options[c][1] is not None:
      self.pc.append(options[c][1])
    return options[c][0]


def consts(e, out):
  todo, seen = [e], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3().is_quantifier(x):
      todo.append(x.body())
    elif z3().is_const(x) and x.decl().kind() == z3().Z3_OP_UNINTERPRETED:
      out[str(x)] = x
    else:
      todo.extend(x.children())
  return out


def forall(vs, body, pat=None):
  vs = list(vs)
  if not vs:
    return body
  if pat is not None:
    return z3().ForAll(vs, body, patterns=[pat] if not isinstance(pat, (list, tuple)) else list(pat))
  return z3().ForAll(vs, body)


def explore(run, limit=600):
  todo, n, store = [[]], 0, {}
  while todo:
    ctx = pyvc.CTX = Ctx(todo.pop(), store)
    try:
      run(ctx)
    except PathEnd:
      pass
    finally:
      pyvc.CTX = None
    todo.extend(ctx.pending)
    n += 1
    if n > limit:
      raise Unsupported('too many paths')
  return n


def C():
  return pyvc.CTX


# ---------------------------------------------------------------- substitution in values
def sub(v, pairs):
  if isinstance(v, Z):
    return Z(z3().substitute(v.e, *pairs))
  if isinstance(v, B):
    return B(z3().substitute(v.e, *pairs))
  if isinstance(v, tuple):
    return tuple(sub(x, pairs) for x in v)
  if z3().is_expr(v):
    return z3().substitute(v, *pairs)
  if hasattr(v, 'subst'):
    return v.subst(pairs)
  return v


def num(v):
  e = zexp(v)
  if e is None:
    raise Unsupported(f'not an integer: {type(v).__name__}')
  return e


class Poison:
  """a value carried from one iteration to another"""

  def _no(self, *a, **k):
    raise Unsupported('a variable is carried from one iteration to the next')
  __getattr__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _no
  __getitem__ = __setitem__ = __iter__ = __bool__ = __contains__ = __len__ = __index__ = __hash__ = _no


POISON = Poison()


# ---------------------------------------------------------------- bags: what a loop runs over
class Bag:
  """{val | binders, cond}; `index`: the single binder is an index 0, 1, ... in order"""

  def __init__(self, binders, cond, val, index=None):
    self.binders, self.cond, self.val, self.index = list(binders), cond, val, index

  def inst(self, news):
    p = list(zip(self.binders, news))
    return sub(self.cond, p), sub(self.val, p)


class Seq:
  """an immutable sequence: length n (z3), element k is body with b := k"""

  def __init__(self, n, b, body):
    self.n, self.b, self.body = n, b, body

  def at(self, k):
    return sub(self.body, [(self.b, k)])

  def subst(self, pairs):
    return type(self)(sub(self.n, pairs), self.b, sub(self.body, pairs))

  def bag(self):
    m = z3()
    return Bag([self.b], m.And(0 <= self.b, self.b < self.n), self.body, index=self.n)

  def __bool__(self):
    return C().branch(self.n != 0)


def bvar(nm='k'):
  """a bound variable of a template (never free)"""
  c = C()
  t, c.tag = c.tag, None
  try:
    return z3().Int(c.name('b_' + nm))
  finally:
    c.tag = t


def template(n, f):
  b = bvar()
  return Seq(n, b, f(b))


class Range:

  def __init__(self, *a):
    es = [num(x) for x in a]
    if len(es) > 2:
      raise Unsupported('range with a step')
    self.lo, self.hi = (z3().IntVal(0), es[0]) if len(es) == 1 else es

  def seq(self):
    return template(self.hi - self.lo, lambda b: Z(b + self.lo))


# ---------------------------------------------------------------- mutable containers
class Box:
  """a container of the program; ops: (binders, cond, payload, index)"""

  def __init__(self):
    c = C()
    self.ops, self.level, self.no = [], len(c.frames), c.name('box')
    c.boxes[self.no] = self

  def put(self, *payload):
    c = C()
    if len(c.frames) > self.level:
      c.frames[-1].touch(self).append((list(c.pc), payload))
      return
    self.extend([], z3().BoolVal(True), payload)

  def extend(self, binders, cond, payload, index=None):
    self.ops.append((list(binders), cond, payload, index))

  def content(self):
    c = C()
    if any(f.writes(self) for f in c.frames[self.level:]):
      raise Unsupported('a container is read in the loop that fills it')
    return self.ops

  def define(self, what, ops, make):
    ex = []
    for _, cd, pay, _ in ops:
      ex += [cd] + [num(p) for p in pay if not isinstance(p, str)]
    return C().define(what, [b for o in ops for b in o[0]], ex, make)

  def subst(self, pairs):
    n = type(self).__new__(type(self))
    n.__dict__.update(self.__dict__)
    n.ops = [(b, sub(cd, pairs), sub(tuple(p), pairs), ix if ix is None else sub(ix, pairs)) for b, cd, p, ix in self.ops]
    return n


def refresh(binders, *vals):
  new = [bvar('r') for _ in binders]
  p = list(zip(binders, new))
  return (new,) + tuple(sub(v, p) for v in vals)


def named(ops, what, extra=None):
  """membership in {payload[0] | ops} as a predicate with witnesses; extra(x, payload): what else is defined by membership"""
  c, m = C(), z3()
  M = c.fn('in_' + what, 1, m.BoolSort())
  x = m.Int(c.name('x'))
  alts = []
  for binders, cond, pay, _ in ops:
    v = num(pay[0])
    c.axiom(binders, m.Implies(cond, m.And(M(v), *(extra(v, pay) if extra else []))))
    ws = [c.fn('w_' + what, 1) for _ in binders]
    p = [(b, w(x)) for b, w in zip(binders, ws)]
    alts.append(m.And(sub(cond, p), x == sub(v, p), *(extra(x, sub(tuple(pay), p)) if extra else [])))
  c.axiom([x], m.Implies(M(x), m.Or(*alts) if alts else m.BoolVal(False)), M(x))
  return M


class PSet(Box):

  def add(self, x):
    self.put(Z(num(x)))

  def update(self, it):
    for x in loop_over('update', it):
      self.put(Z(num(x)))

  def pred(self):
    ops = self.content()
    return self.define('set', ops, lambda: named(ops, 'set'))

  def mem(self, x):
    return self.pred()(num(x))

  def __contains__(self, x):
    c = C()
    for f in c.frames[self.level:]:
      if f.mode == 'discover' and (f.touched(self) or self.no in f.mutable):
        return c.branch(f.oracle())
      if f.mode == 'iterate' and f.writes(self):
        return c.branch(f.state(self, num(x)))
    return c.branch(self.mem(x))

  def listed(self):
    """the members in some order"""
    return self.sorted(False)

  def sorted(self, order=True):
    M = self.pred()
    ops = self.content()

    def make():
      c, m = C(), z3()
      n, at, pos = c.fn('card', 0)(), c.fn('sorted', 1), c.fn('rank', 1)
      a, b, x = [m.Int(c.name(q)) for q in 'abx']
      c.axiom([], n >= 0)
      c.axiom([a], m.Implies(m.And(0 <= a, a < n), m.And(M(at(a)), pos(at(a)) == a)), at(a))
      if order:
        c.axiom([a, b], m.Implies(m.And(0 <= a, a < b, b < n), at(a) < at(b)), m.MultiPattern(at(a), at(b)))
      c.axiom([x], m.Implies(M(x), m.And(0 <= pos(x), pos(x) < n, at(pos(x)) == x)), M(x))
      k = m.Int(c.name('b_k'))
      s = Seq(n, k, Z(at(k)))
      s.rank = pos
      return s
    return self.define('sorted' if order else 'listed', ops, make)

  def bag(self):
    v = bvar('v')
    return Bag([v], self.mem(Z(v)), Z(v))

  def size(self):
    return Z(self.sorted().n)

  def __bool__(self):
    return C().branch(self.sorted().n != 0)

  def __iter__(self):
    raise Unsupported('a set is iterated outside a loop')


class PDict(Box):

  def __setitem__(self, k, v):
    self.put(Z(num(k)), v)

  def funs(self):
    c, m = C(), z3()
    ops = self.content()
    for _, _, pay, _ in ops:
      if isinstance(pay, Bulk) or zexp(pay[1]) is None:
        raise Unsupported('a dictionary of other values than integers')
    ops = [(b, cd, (pay[0], Z(num(pay[1]))), ix) for b, cd, pay, ix in ops]

    def make():
      V = c.fn('val', 1)
      return named(ops, 'dict', lambda x, pay: [V(x) == num(pay[1])]), V

    def single():
      # entries written twice under a key must agree (then the order does not matter)
      for i, (b1, c1, p1, _) in enumerate(ops):
        for b2, c2, p2, _ in ops[i:]:
          _, d2, q2 = refresh(b2, c2, p2)
          if not b1 and c1 is c2 and p1 is p2:
            continue
          if not c.known(m.Not(m.And(c1, d2, p1[0].e == q2[0].e, p1[1].e != q2[1].e))):
            raise Unsupported('a key may be given different values')
    self.define('dict-agree', ops, single)
    return self.define('dict', ops, make)

  def has(self, x):
    return self.funs()[0](num(x))

  def __contains__(self, x):
    return C().branch(self.has(x))

  def __getitem__(self, x):
    M, V = self.funs()
    if not C().branch(M(num(x))):
      raise KeyError('symbolic key')
    return Z(V(num(x)))

  def get(self, x, default=None):
    M, V = self.funs()
    if C().branch(M(num(x))):
      return Z(V(num(x)))
    return default

  def keyset(self):
    s = PSet()
    s.ops = [(b, cd, (pay[0],), ix) for b, cd, pay, ix in self.content()]
    return s

  def keys(self):
    return self.keyset()

  def bag(self):
    return self.keyset().bag()

  def items(self):
    M, V = self.funs()
    v = bvar('v')
    return Bag([v], M(v), (Z(v), Z(V(v))))

  def __iter__(self):
    raise Unsupported('a dictionary is iterated outside a loop')


class Ref:
  """entry p of a list of lists"""

  def __init__(self, lst, p):
    self.lst, self.p = lst, p

  def append(self, v):
    self.lst.put('row', self.p, v)


class PList(Box):

  def append(self, v):
    self.put('item', v)

  def rows(self):
    """number of entries if this is a list of initially empty lists"""
    if self.ops and self.ops[0][2][0] == 'item' and isinstance(self.ops[0][2][1], PList) and not self.ops[0][2][1].ops:
      if all(o[2][0] == 'row' for o in self.ops[1:]) and self.ops[0][3] is not None:
        return self.ops[0][3]

  def __getitem__(self, p):
    n = self.rows()
    if n is not None and isinstance(p, Z):
      C().require(z3().And(p.e >= 0, p.e < n), 'index within the list')
      return Ref(self, p.e)
    if isinstance(p, Z):
      s = self.seq()
      C().require(z3().And(p.e >= 0, p.e < s.n), 'index within the list')
      return s.at(p.e)
    raise Unsupported('list indexing')

  def seq(self):
    ops = self.content()
    n = self.rows()
    if n is not None and len(ops) >= 1:
      b = bvar('row')
      row = PList()
      for bs, cd, (_, p, v), ix in ops[1:]:
        row.ops.append((bs, z3().And(cd, p == b), ('item', v), ix))
      return Seq(n, b, LazyRow(row, b))       # the entry number is a parameter of everything defined for the entry
    if not ops:
      return Seq(z3().IntVal(0), bvar(), Z(z3().IntVal(0)))
    out = None
    for bs, cd, pay, ix in ops:
      if pay[0] != 'item':
        raise Unsupported('list')
      if not bs:
        s = Seq(z3().IntVal(1), bvar(), pay[1])
      elif ix is not None and len(bs) == 1:
        s = select(bs[0], ix, cd, pay[1])
      else:
        raise Unsupported('a list filled in no definite order')
      out = s if out is None else concat([out, s])
    return out

  def bag(self):
    return self.seq().bag()

  def size(self):
    return Z(self.seq().n)

  def __bool__(self):
    return C().branch(self.seq().n != 0)

  def __iter__(self):
    raise Unsupported('a list is iterated outside a loop')


class LazyRow:
  """row b of a list of lists, at the index idx"""

  def __init__(self, row, b, idx=None):
    self.row, self.b, self.idx = row, b, b if idx is None else idx

  def subst(self, pairs):
    return LazyRow(self.row.subst([q for q in pairs if not q[0].eq(self.b)]), self.b, sub(self.idx, pairs))

  def seq(self):
    c = C()
    ps, n = c.params, len(c.axs)
    fr, c.frames = c.frames, []
    c.params = ps + [self.b]
    try:
      s = self.row.seq()
    finally:
      c.params, c.frames = ps, fr
    new = c.axs[n:]
    del c.axs[n:]
    for a in new:
      q = close(a, self.b)
      c.axs.append(q)
      for f in fr:
        f.axioms.append(([], q, None))
    return s.subst([(self.b, self.idx)])

  def bag(self):
    return self.seq().bag()

  def size(self):
    return Z(self.seq().n)


def close(a, b):
  """∀b. a, merged with the quantifier of a"""
  m = z3()
  if not occurs(b, a):
    return a
  if m.is_quantifier(a) and a.is_forall():
    vs = [m.Int(f'{a.var_name(i)}') for i in range(a.num_vars())]
    body = m.substitute_vars(a.body(), *reversed(vs))
    pats = []
    for i in range(a.num_patterns()):
      p = a.pattern(i)
      ts = [m.substitute_vars(p.arg(j), *reversed(vs)) for j in range(p.num_args())]
      pats.append(m.MultiPattern(*ts) if len(ts) > 1 else ts[0])
    return m.ForAll([b] + vs, body, patterns=pats) if pats else m.ForAll([b] + vs, body)
  return m.ForAll([b], a)


def occurs(b, e):
  todo, seen = [e], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if x.eq(b):
      return True
    todo.extend([x.body()] if z3().is_quantifier(x) else x.children())
  return False


def select(b, n, cond, val):
  """the sequence of val for the indices b in [0, n) with cond, in order"""
  c, m = C(), z3()
  cd = m.simplify(cond)
  rng = m.And(0 <= b, b < n)
  if m.is_true(cd) or c.known(m.Implies(rng, cd), 600):
    return Seq(n, b, val)
  canon = m.Int('b_!sel')
  cc = m.simplify(m.substitute(cd, (b, canon)))

  def make():
    cnt, w, r = c.fn('count', 0)(), c.fn('nth', 1), c.fn('rank', 1)
    a, d, x = [m.Int(c.name(q)) for q in 'adx']
    at = lambda t: m.And(0 <= t, t < n, m.substitute(cc, (canon, t)))
    c.axiom([], cnt >= 0)
    c.axiom([a], m.Implies(m.And(0 <= a, a < cnt), m.And(at(w(a)), r(w(a)) == a)), w(a))
    c.axiom([a, d], m.Implies(m.And(0 <= a, a < d, d < cnt), w(a) < w(d)), m.MultiPattern(w(a), w(d)))
    c.axiom([x], m.Implies(at(x), m.And(0 <= r(x), r(x) < cnt, w(r(x)) == x)))
    return cnt, w, r
  cnt, w, r = c.define('select', [canon], [cc, n], make)
  k = bvar()
  s = Seq(cnt, k, sub(val, [(b, w(k))]))
  s.rank = r
  return s


def concat(ss):
  m = z3()
  k = bvar()
  def at(ss, k):
    s = ss[0]
    if len(ss) == 1:
      return num(s.at(k))
    return m.If(k < s.n, num(s.at(k)), at(ss[1:], k - s.n))
  return Seq(m.simplify(sum([s.n for s in ss[1:]], ss[0].n)), k, Z(at(ss, k)))


# ---------------------------------------------------------------- loops
class Frame:

  def __init__(self, key, bag, mutable):
    self.key, self.bag, self.boxes, self.axioms, self.mode = key, bag, {}, [], None
    self.mutable, self.states = {x.no for x in mutable if isinstance(x, Box)}, {}

  def touch(self, box):
    return self.boxes.setdefault(box.no, [])

  def touched(self, box):
    return box.no in self.boxes

  def writes(self, box):
    """does the loop write the box? (in an iteration: known from the discovery paths)"""
    if self.mode == 'discover':
      return self.touched(box)
    return any(o == box.no for _, ops, *_ in self.summary['discover'] for o, _ in ops)

  def oracle(self):
    return z3().Bool(C().name('read!'))

  def guess(self, box):
    """contribution of one iteration, from the discovery paths, without the conditions on the box itself"""
    m = z3()
    out = []
    for conds, ops, rz in self.summary['discover']:
      if rz is not None:
        continue
      for q, (pc, pay) in ops:
        if q == box.no:
          if isinstance(pay, Bulk):
            raise Unsupported('a container is read in the loop that fills it')
          cs = [e for e in pc[self.base:] if 'read!' not in e.sexpr()]
          g = (m.And(*cs) if cs else m.BoolVal(True), pay)
          if not any(g[0].eq(h[0]) and num(g[1][0]).eq(num(h[1][0])) for h in out):
            out.append(g)
    if len(out) != 1 or len(self.binders) != 1 or self.bag.index is None:
      raise Unsupported('a container is read in the loop that fills it')
    return out[0]

  def state(self, box, x):
    """membership in the box at the beginning of the iteration"""
    c, m = C(), z3()
    if box.no not in self.states:
      cond, pay = self.guess(box)
      j, = self.binders
      i = bvar('i')
      p = [(j, i)]
      full = m.And(sub(self.cond, p), i < j, sub(cond, p))
      ops = list(box.ops) + [([i], full, (sub(pay[0], p),), None)]
      self.states[box.no] = (box.define('state', ops, lambda: named(ops, 'state')), box, cond, pay)
    return self.states[box.no][0](x)


def begin(key, it, mutable=()):
  bag = bag_of(it)
  if bag is None:
    return None
  c = C()
  fr = Frame((tuple(c.trace), key), bag, mutable)
  fr.summary = c.store.setdefault(fr.key, dict(discover=[], iterate=[], axioms={}))
  fr.mode = c.choose([('discover', None), ('iterate', None), ('exit', None)], f'loop {key}')
  fr.binders = [z3().Int(f"j!{q}@{key}@{'.'.join(map(str, fr.key[0]))}") for q in range(len(bag.binders))]
  fr.cond, fr.val = bag.inst(fr.binders)
  return fr


def run(fr):
  c = C()
  if fr.mode == 'exit':
    finish(fr)
    return
  c.frames = c.frames + [fr]
  c.params = c.params + fr.binders
  c.pc.append(fr.cond)
  fr.base = len(c.pc)
  yield fr.val
  close_path(fr, None)
  raise PathEnd('iteration')


def close_path(fr, rz):
  """the end of one path through the body; rz: binders of the inner loops the path was in when it raised"""
  c, m = C(), z3()
  ops = [(no, o) for no, os in fr.boxes.items() for o in os]
  S = fr.summary
  if fr.mode == 'iterate' and rz is None:
    for _, box, cond, pay in fr.states.values():
      here = [o for no, o in ops if no == box.no]
      if len(here) > 1 or here and isinstance(here[0][1], Bulk):
        raise Unsupported('several entries in one iteration')
      try:
        if here:
          c.require(m.And(cond, num(here[0][1][0]) == num(pay[0])), 'accumulation invariant')
        else:
          c.require(m.Not(cond), 'accumulation invariant')
      except Failed:
        raise Unsupported('the accumulation invariant is not preserved')
  S[fr.mode].append((list(c.pc[fr.base:]), ops, rz))
  if fr.mode == 'iterate':
    for vs, body, pat in fr.axioms:
      S['axioms'].setdefault((tuple(map(str, vs)), body.sexpr()), (vs, body, pat))


def raised(fr, e):
  if fr is None or isinstance(e, (PathEnd, Unsupported, Failed)):
    return
  c = C()
  inner = c.frames[c.frames.index(fr) + 1:]
  close_path(fr, [b for f in inner for b in f.binders])
  if fr.mode == 'discover':
    raise PathEnd('raised in discovery')


def finish(fr):
  """the state after the loop"""
  c, m = C(), z3()
  S = fr.summary
  for vs, body, pat in S['axioms'].values():
    q = forall(vs, body, pat)
    for b in fr.binders:
      q = close(q, b)
    c.axs.append(q)
    for f in c.frames:
      f.axioms.append(([], q, None))
  per = {}
  for conds, ops, rz in S['iterate']:
    if rz is not None:
      c.facts.append(forall(fr.binders + rz, m.Not(m.And(fr.cond, *conds))))
      continue
    mult = {}
    for no, (_, pay) in ops:
      mult[no] = mult.get(no, 0) + 1
      per.setdefault(no, []).append((m.And(fr.cond, *conds), pay))
    for no, k in mult.items():
      if no in c.boxes and k > 1 and isinstance(c.boxes[no], PList):
        raise Unsupported('several entries of a list in one iteration')
  for no, merged in per.items():
    if no not in c.boxes:
      raise Unsupported('container of another path')
    box = c.boxes[no]
    if isinstance(box, PList) and len(merged) > 1:
      # alternatives of one position: one entry with a conditional value
      if any(isinstance(q[1], Bulk) or q[1][0] != 'item' or zexp(q[1][1]) is None for q in merged):
        raise Unsupported('alternative entries')
      v = num(merged[-1][1][1])
      for cd, pay in reversed(merged[:-1]):
        v = m.If(cd, num(pay[1]), v)
      merged = [(m.Or(*[q[0] for q in merged]), ('item', Z(v)))]
    for cond, pay in merged:
      bs, ix = fr.binders, fr.bag.index
      if isinstance(pay, Bulk):
        bs, cond, pay, ix = bs + pay.binders, m.And(cond, pay.cond), pay.pay, None
      if len(c.frames) > box.level:     # recorded in the outer loop
        c.frames[-1].touch(box).append((list(c.pc), Bulk(bs, cond, pay)))
      else:
        box.extend(bs, cond, pay, ix)


class Bulk:
  """the entries made by an inner loop"""

  def __init__(self, binders, cond, pay):
    self.binders, self.cond, self.pay = list(binders), cond, pay


def bag_of(it):
  if isinstance(it, Bag):
    return it
  if isinstance(it, Range):
    return it.seq().bag()
  if isinstance(it, (Seq, PList, PSet, PDict)) or hasattr(it, 'bag'):
    return it.bag()
  return None


def is_sym(it):
  return isinstance(it, (Bag, Range, Seq, Box)) or hasattr(it, 'bag')


def loop_over(key, it):
  """for Python-side loops (comprehensions, map, update)"""
  fr = begin(key, it)
  if fr is None:
    yield from it
    return
  yield from run(fr)


COMP = dict(list=PList, set=PSet, dict=PDict, gen=PList)


def comp(key, kind, elt, it, cond):
  if not is_sym(it):
    g = (e for e in it if cond(e))
    if kind == 'dict':
      return dict(elt(e) for e in g)
    return {'list': list, 'set': set, 'gen': list}[kind](elt(e) for e in g)
  out = COMP[kind]()
  fr = begin(key, it, [out])
  for e in run(fr):
    try:
      if cond(e):
        v = elt(e)
        if kind == 'dict':
          out[v[0]] = v[1]
        elif kind == 'set':
          out.add(v)
        else:
          out.append(v)
    except Exception as x:
      raised(fr, x)
      raise
  return out


# ---------------------------------------------------------------- arrays
class Arr1:
  """a one-dimensional integer array (or the flat view of one of any shape)"""
  ndim = 1

  def __init__(self, s, dtype='i'):
    self.s, self.dtype = s, dtype

  def seq(self):
    return self.s

  def subst(self, pairs):
    return Arr1(sub(self.s, pairs), self.dtype)

  def bag(self):
    return self.s.bag()

  def size_(self):
    return Z(self.s.n)

  @property
  def size(self):
    return Z(self.s.n)

  @property
  def shape(self):
    return (Z(self.s.n),)

  def tolist(self):
    return self.s

  def flatten(self):
    return self
  ravel = flatten

  def reshape(self, *a):
    if len(a) == 1 and a[0] in (-1, (-1,)):
      return self
    raise Unsupported('reshape')

  def astype(self, dt):
    return Arr1(self.s, dt)

  def at(self, k):
    return self.s.at(k)

  def __getitem__(self, i):
    if isinstance(i, Mask):
      if i.a is not self and not i.s.n.eq(self.s.n):
        raise Unsupported('mask of another array')
      b = self.s.b
      cond = sub(i.s.body, [(i.s.b, b)]).e
      return Arr1(select(b, self.s.n, cond, self.s.body), self.dtype)
    if isinstance(i, Z):
      C().require(z3().And(i.e >= 0, i.e < self.s.n), 'index within the array')
      return self.s.at(i.e)
    raise Unsupported('indexing')

  def max(self):
    return extreme(self.s, True)

  def min(self):
    return extreme(self.s, False)

  def _cmp(self, o, f):
    x = num(o)
    b = bvar()
    return Mask(self, Seq(self.s.n, b, B(f(num(self.s.at(b)), x))))

  def __ne__(self, o):
    return self._cmp(o, lambda a, b: a != b)

  def __eq__(self, o):
    return self._cmp(o, lambda a, b: a == b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)
  __hash__ = None

  def __iter__(self):
    raise Unsupported('an array is iterated outside a loop')


class ArrN(Arr1):
  """an array of unknown shape, known by its flat view"""

  def _no(self, *a, **k):
    raise Unsupported('an operation that depends on the shape')
  shape = property(_no)
  ndim = property(_no)
  tolist = seq = bag = __len__ = max = min = reshape = _no

  def flatten(self):
    return Arr1(self.s, self.dtype)
  ravel = flatten

  @property
  def flat(self):
    return Arr1(self.s, self.dtype)

  def subst(self, pairs):
    return ArrN(sub(self.s, pairs), self.dtype)

  def astype(self, dt):
    return self

  def __getitem__(self, i):
    if isinstance(i, Mask):
      return Arr1.__getitem__(self, i)
    self._no()


class Mask:

  def __init__(self, a, s):
    self.a, self.s = a, s

  def subst(self, pairs):
    return Mask(None, sub(self.s, pairs))


def extreme(s, big):
  c, m = C(), z3()
  canon = m.Int('b_!ext')
  e = num(s.at(canon))
  if not c.known(s.n >= 1) and not c.branch(s.n >= 1):
    raise ValueError('extreme of an empty sequence')

  def make():
    v, w = c.fn('max' if big else 'min', 0)(), c.fn('argmax', 0)()
    k = m.Int(c.name('k'))
    at = lambda t: m.substitute(e, (canon, t))
    c.axiom([], m.Implies(s.n >= 1, m.And(0 <= w, w < s.n, at(w) == v)))
    c.axiom([k], m.Implies(m.And(0 <= k, k < s.n), at(k) <= v if big else at(k) >= v))
    return Z(v)
  return c.define('max' if big else 'min', [canon], [e, s.n], make)


class Arr2:
  """a two-dimensional integer array: entry (p, k) is body with b1 := p, b2 := k"""
  ndim = 2

  def __init__(self, n1, n2, b1, b2, body):
    self.n1, self.n2, self.b1, self.b2, self.body = n1, n2, b1, b2, body

  def at(self, p, k):
    return sub(self.body, [(self.b1, p), (self.b2, k)])

  @property
  def shape(self):
    return (Z(self.n1), Z(self.n2))

  def row(self, p):
    b = bvar()
    return Arr1(Seq(self.n2, b, self.at(p, b)))

  def seq(self):
    b = bvar('p')
    return Seq(self.n1, b, self.row(b))

  def bag(self):
    return self.seq().bag()

  def __getitem__(self, p):
    if isinstance(p, Z):
      C().require(z3().And(p.e >= 0, p.e < self.n1), 'index within the array')
      return self.row(p.e)
    raise Unsupported('indexing')

  def flatten(self):
    return Flat(self)
  ravel = flatten

  def astype(self, dt):
    return self

  def __iter__(self):
    raise Unsupported('an array is iterated outside a loop')


class Rows(Arr2):
  """an array whose rows have an unknown common shape"""
  ndim = shape = property(ArrN._no)

  def row(self, p):
    b = bvar()
    return ArrN(Seq(self.n2, b, self.at(p, b)))

  def flatten(self):
    raise Unsupported('flattening')
  ravel = flatten


class Flat:
  """the entries of a two-dimensional array"""
  ndim = 1

  def __init__(self, a):
    self.a = a

  def tolist(self):
    return self

  def bag(self):
    m = z3()
    p, k = bvar('p'), bvar('k')
    return Bag([p, k], m.And(0 <= p, p < self.a.n1, 0 <= k, k < self.a.n2), self.a.at(p, k))


class NdArr(Box):
  """np.full of symbolic shape, then written"""

  def __init__(self, shape, fill):
    super().__init__()
    self.shp, self.fill = shape, fill

  @property
  def ndim(self):
    return len(self.shp)

  @property
  def shape(self):
    return tuple(Z(n) for n in self.shp)

  def __setitem__(self, idx, v):
    idx = idx if isinstance(idx, tuple) else (idx,)
    if len(idx) != len(self.shp):
      raise Unsupported('assignment to a part of an array')
    es = [num(i) for i in idx]
    C().require(z3().And(*[z3().And(0 <= e, e < n) for e, n in zip(es, self.shp)]), 'index within the array')
    self.put(*[Z(e) for e in es], Z(num(v)))

  def fun(self):
    c, m = C(), z3()
    d = len(self.shp)
    ops = self.content()
    for o in ops:
      if isinstance(o[2], Bulk):
        raise Unsupported('array writes')

    def once():
      for i, (b1, c1, p1, _) in enumerate(ops):
        for b2, c2, p2, _ in ops[i:]:
          _, d2, q2 = refresh(b2, c2, p2)
          if not c.known(m.Not(m.And(c1, d2, *[x.e == y.e for x, y in zip(p1[:d], q2[:d])], p1[d].e != q2[d].e))):
            raise Unsupported('an array entry may be written twice')

    def make():
      A = c.fn('arr', d)
      xs = [m.Int(c.name('x')) for _ in range(d)]
      alts = [A(*xs) == self.fill]
      for bs, cd, pay, _ in ops:
        c.axiom(bs, m.Implies(cd, A(*[q.e for q in pay[:d]]) == pay[d].e))
        ws = [c.fn('wr', d) for _ in bs]
        p = [(b, w(*xs)) for b, w in zip(bs, ws)]
        pay = sub(tuple(pay), p)
        alts.append(m.And(sub(cd, p), *[x == q.e for x, q in zip(xs, pay[:d])], A(*xs) == pay[d].e))
      c.axiom(xs, m.Or(*alts), A(*xs))
      return A
    self.define('arr-once', ops, once)
    return self.define('arr', ops, make)

  def bag(self):
    raise Unsupported('iteration over an array')


def arr(x):
  """np.asarray / np.array"""
  if isinstance(x, (Arr1, Arr2, NdArr)):
    return x
  if isinstance(x, LazyRow):
    return Arr1(x.seq())
  if isinstance(x, (PList, Seq)):
    s = x if isinstance(x, Seq) else x.seq()
    if isinstance(s.body, (Arr1, Seq, PList, LazyRow)):
      c, m = C(), z3()
      p, k = bvar('p'), bvar('k')
      row = arr(s.at(p)).s
      n = c.fn('width', 0)()
      w = m.Int(c.name('w'))
      n0 = sub(row.n, [(p, m.IntVal(0))])
      c.require(m.Implies(m.And(0 <= w, w < s.n), sub(row.n, [(p, w)]) == n0), 'rows of one length')
      return (Rows if isinstance(s.body, ArrN) else Arr2)(s.n, n0, p, k, sub(row.body, [(row.b, k)]))
    return Arr1(s)
  raise Unsupported(f'array of {type(x).__name__}')


def conv(x, dtype=None, **k):
  import numpy as np
  if not is_sym(x) and not isinstance(x, LazyRow):
    if isinstance(x, (list, tuple)) and any(is_sym(q) or isinstance(q, Z) for q in x):
      raise Unsupported('array of symbolic values')
    return np.array(x, dtype=dtype, **k)
  r = arr(x)
  if dtype is not None:
    r.dtype = dtype
  return r


class NpShim:
  """numpy with contracts for symbolic arrays"""

  def __init__(self, **over):
    import numpy as np
    self._np, self._over = np, over

  def __getattr__(self, n):
    o = self.__dict__.get('_over', {})
    return o[n] if n in o else getattr(self.__dict__['_np'], n)

  def array(self, x, dtype=None, **k):
    return conv(x, dtype, **k)

  def asarray(self, x, dtype=None, **k):
    return conv(x, dtype, **k)

  def stack(self, x, *a, **k):
    if is_sym(x) and not a and not k:
      return arr(x)
    if is_sym(x):
      raise Unsupported('stack')
    return self._np.stack(x, *a, **k)

  def hstack(self, xs):
    if any(is_sym(x) for x in xs):
      return Arr1(concat([arr(x).s for x in xs]))
    return self._np.hstack(xs)
  concatenate = hstack

  def full(self, shape, fill_value=None, dtype=None):
    if isinstance(shape, Z):
      f = num(fill_value)
      return Arr1(template(shape.e, lambda b: Z(f)))
    if isinstance(shape, tuple) and any(isinstance(q, Z) for q in shape):
      if len(shape) == 1:
        return self.full(shape[0], fill_value)
      return NdArr([num(q) for q in shape], num(fill_value))
    return self._np.full(shape, fill_value, dtype=dtype)

  def unique(self, x, **k):
    if not is_sym(x):
      return self._np.unique(x, **k)
    if k:
      raise Unsupported('unique with options')
    s = PSet()
    b = x.bag()
    s.ops = [(b.binders, b.cond, (b.val,), None)]
    return Arr1(s.sorted())

  def vectorize(self, f, **k):
    def g(*xs):
      if not any(is_sym(x) for x in xs):
        return self._np.vectorize(f, **k)(*xs)
      if k or len(xs) != 1:
        raise Unsupported('vectorize with options')
      x = xs[0]
      if isinstance(x, Arr2):
        m, p, q = z3(), bvar('p'), bvar('k')
        out = NdArr([x.n1, x.n2], m.IntVal(0))
        rng = m.And(0 <= p, p < x.n1, 0 <= q, q < x.n2)
        for i, j, v in loop_over(('vec2', 0), Bag([p, q], rng, (Z(p), Z(q), x.at(p, q)))):
          out[i, j] = f(v)
        return out
      return type(x)(comp(('vec', 0), 'list', f, x.s, always).seq())
    return g


always = lambda e: True


# ---------------------------------------------------------------- builtins
def b_len(x):
  if isinstance(x, (PSet, PList, LazyRow)):
    return x.size()
  if isinstance(x, Seq):
    return Z(x.n)
  if isinstance(x, Arr1):
    return Z(x.s.n)
  if isinstance(x, Arr2):
    return Z(x.n1)
  if isinstance(x, NdArr):
    return Z(x.shp[0])
  if isinstance(getattr(x, 'shape', None), tuple) and x.shape and isinstance(x.shape[0], Z):
    return x.shape[0]
  if is_sym(x):
    raise Unsupported('len')
  return len(x)


def b_range(*a):
  return Range(*a) if any(isinstance(x, Z) for x in a) else range(*a)


def b_enumerate(x, start=0):
  if not is_sym(x):
    return enumerate(x, start)
  if isinstance(x, Seq):
    s = x
  elif isinstance(x, Range):
    s = x.seq()
  elif hasattr(x, 'seq'):
    s = x.seq()
  else:
    raise Unsupported('enumeration of an unordered collection')
  return Seq(s.n, s.b, (Z(s.b + num(start)), s.body))


def b_list(x=()):
  if is_sym(x):
    if isinstance(x, PList):
      return x if x.ops is None else as_list(x.seq())
    if hasattr(x, 'seq'):
      return as_list(x.seq())
    if isinstance(x, Seq):
      return as_list(x)
    if isinstance(x, PSet):
      return as_list(x.listed())
    raise Unsupported('list of an unordered collection')
  x = list(x)
  return x if x else PList()


def as_list(s):
  l = PList()
  l.ops = [([s.b], z3().And(0 <= s.b, s.b < s.n), ('item', s.body), s.n)]
  return l


def b_set(x=()):
  if is_sym(x):
    s = PSet()
    b = bag_of(x)
    s.ops = [(b.binders, b.cond, (b.val,), None)]
    return s
  x = list(x)
  if not x:
    s = PSet()
    return s
  return set(x)


def b_dict(x=None, **k):
  if x is None and not k:
    return new_dict()
  if is_sym(x):
    b = bag_of(x)
    d = new_dict()
    if not isinstance(b.val, tuple) or len(b.val) != 2:
      # a list of pairs
      raise Unsupported('dict of something else than pairs')
    d.ops = [(b.binders, b.cond, b.val, None)]
    return d
  return dict(x, **k)


def new_dict():
  d = PDict()
  return d


def new_list():
  l = PList()
  return l


def b_sorted(x, **k):
  if not is_sym(x):
    return sorted(x, **k)
  if k:
    raise Unsupported('sorted with options')
  if isinstance(x, PDict):
    x = x.keyset()
  if isinstance(x, PSet):
    return x.sorted()
  raise Unsupported('sorted')


def b_max(*a, **k):
  if len(a) == 1 and is_sym(a[0]) and not k:
    x = a[0]
    if isinstance(x, PSet):
      s = x.sorted()
    else:
      s = x if isinstance(x, Seq) else x.seq()
    return extreme(s, True)
  return max(*a, **k)


def b_min(*a, **k):
  if len(a) == 1 and is_sym(a[0]) and not k:
    x = a[0]
    if hasattr(x, 'minimum'):
      return x.minimum()
    s = x.sorted() if isinstance(x, PSet) else x if isinstance(x, Seq) else x.seq()
    return extreme(s, False)
  return min(*a, **k)


class Mapper:
  k = 0


def b_map(f, *its):
  if not any(is_sym(i) for i in its):
    return map(f, *its)
  if len(its) != 1:
    raise Unsupported('map over several collections')
  return comp('map', 'list', f, its[0], always)


def b_zip(*its):
  if not any(is_sym(i) for i in its):
    return zip(*its)
  ss = [i if isinstance(i, Seq) else i.seq() for i in its]
  for s in ss[1:]:
    C().require(s.n == ss[0].n, 'zip of collections of one length')
  b = bvar()
  return Seq(ss[0].n, b, tuple(s.at(b) for s in ss))


def tree_map(f, x, *rest, **k):
  """jax.tree.map on a list of arrays"""
  import jax
  if not is_sym(x):
    return jax.tree.map(f, x, *rest, **k)
  if rest:
    return comp('tree', 'list', lambda e: f(*e), b_zip(x, *rest), always)
  return comp('tree', 'list', f, x, always)


def counter(x):
  if not is_sym(x):
    import collections
    return collections.Counter(x)
  return Counter(bag_of(x))


class Counter:
  """contract of collections.Counter: how often a value occurs (decided exactly up to three)"""

  def __init__(self, bag):
    self.G, self.n = C().define('counter', bag.binders, [bag.cond, num(bag.val)], lambda: self.make(bag))

  def make(self, bag):
    c, m = C(), z3()
    n = c.fn('count', 1)
    x = m.Int(c.name('x'))
    G = [c.fn(f'atleast{q}', 1, m.BoolSort()) for q in (1, 2, 3)]
    for q, g in enumerate(G, 1):
      copies = [refresh(bag.binders, bag.cond, bag.val) for _ in range(q)]
      vs = [v for cp in copies for v in cp[0]]
      less = [lexless(copies[i][0], copies[i + 1][0]) for i in range(q - 1)]
      c.axiom(vs, m.Implies(m.And(*[cp[1] for cp in copies], *less, *[num(cp[2]) == num(copies[0][2]) for cp in copies[1:]]),
                            g(num(copies[0][2]))))
      ws = [[c.fn(f'occ{q}', 1) for _ in bag.binders] for _ in range(q)]
      inst = [bag.inst([w(x) for w in r]) for r in ws]
      less = [lexless([w(x) for w in ws[i]], [w(x) for w in ws[i + 1]]) for i in range(q - 1)]
      c.axiom([x], m.Implies(g(x), m.And(*[i[0] for i in inst], *[num(i[1]) == x for i in inst], *less)), g(x))
      c.axiom([x], m.And(g(x) == (n(x) >= q), n(x) >= 0), n(x))
      c.axiom([x], g(x) == (n(x) >= q), g(x))
    return G, n

  def bag(self):
    v = bvar('v')
    return Bag([v], self.G[0](v), Z(v))

  def keys(self):
    return self.bag()

  def items(self):
    v = bvar('v')
    return Bag([v], self.G[0](v), (Z(v), Z(self.n(v))))

  def __getitem__(self, x):
    return Z(self.n(num(x)))

  def get(self, x, default=None):
    if default == 0:
      return self[x]
    raise Unsupported('Counter.get')

  def __contains__(self, x):
    return C().branch(self.G[0](num(x)))


def lexless(a, b):
  m = z3()
  r = m.BoolVal(False)
  for x, y in reversed(list(zip(a, b))):
    r = m.Or(x < y, m.And(x == y, r))
  return r


BUILTINS = dict(len=b_len, range=b_range, enumerate=b_enumerate, list=b_list, set=b_set, dict=b_dict, sorted=b_sorted,
                max=b_max, min=b_min, map=b_map, zip=b_zip)


# ---------------------------------------------------------------- instrumentation
class Rewriter(ast.NodeTransformer):

  def __init__(self):
    self.k = 0

  def key(self):
    self.k += 1
    return self.k

  def comp_(self, n, kind, elt):
    self.generic_visit(n)
    if len(n.generators) != 1 or n.generators[0].is_async:
      return n
    g = n.generators[0]
    e = ast.Tuple([n.key, n.value], ast.Load()) if kind == 'dict' else n.elt
    cond = ast.Constant(True) if not g.ifs else g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)

    def lam(body):
      if isinstance(g.target, ast.Name):
        return ast.Lambda(args=args([g.target.id]), body=body)
      if isinstance(g.target, ast.Tuple) and all(isinstance(q, ast.Name) for q in g.target.elts):
        inner = ast.Lambda(args=args([q.id for q in g.target.elts]), body=body)
        return ast.Lambda(args=args(['__e']), body=ast.Call(inner, [ast.Starred(ast.Name('__e', ast.Load()), ast.Load())], []))
      return None
    f, h = lam(e), lam(cond)
    if f is None:
      return n
    return ast.Call(ast.Attribute(ast.Name('__sc', ast.Load()), 'comp', ast.Load()),
                    [ast.Constant(self.key()), ast.Constant(kind), f, g.iter, h], [])

  def visit_ListComp(self, n):
    return self.comp_(n, 'list', None)

  def visit_SetComp(self, n):
    return self.comp_(n, 'set', None)

  def visit_DictComp(self, n):
    return self.comp_(n, 'dict', None)

  def visit_GeneratorExp(self, n):
    return self.comp_(n, 'gen', None)

  def visit_Dict(self, n):
    self.generic_visit(n)
    if not n.keys:
      return ast.parse('__sc.new_dict()', mode='eval').body
    return n

  def visit_List(self, n):
    self.generic_visit(n)
    if not n.elts and isinstance(n.ctx, ast.Load):
      return ast.parse('__sc.new_list()', mode='eval').body
    return n

  def visit_For(self, n):
    nm = pyvc.Names()
    for s in n.body:
      nm.visit(s)
    nm.visit(n.target)
    early = any(isinstance(q, (ast.Break, ast.Return)) for s in n.body for q in ast.walk(s)) or bool(n.orelse)
    self.generic_visit(n)
    k = self.key()
    P = lambda src: ast.parse(src).body
    it, fr = f'__it{k}', f'__fr{k}'
    pre = [ast.Assign(targets=[ast.Name(it, ast.Store())], value=n.iter)]
    mut = '[' + ', '.join(f"__loc.get({x!r})" for x in sorted(nm.mut)) + ']'
    pre += P(f'__loc = locals()\n{fr} = __sc.begin({k}, {it}, {mut})')
    if early:
      pre += P(f'if {fr} is not None: __sc.unsupported("a loop that is left early")')
    poison = lambda: P(f'if {fr} is not None:\n  ' + ('\n  '.join(f'{x} = __sc.POISON' for x in sorted(nm.bound)) or 'pass'))
    body = [ast.Try(body=n.body, handlers=[ast.ExceptHandler(
        type=ast.Name('Exception', ast.Load()), name='__exc', body=P(f'__sc.raised({fr}, __exc)\nraise'))], orelse=[], finalbody=[])]
    loop = ast.For(target=n.target, iter=ast.parse(f'{it} if {fr} is None else __sc.run({fr})', mode='eval').body,
                   body=body, orelse=n.orelse)
    return pre + poison() + [loop] + poison()

  def visit_AnnAssign(self, n):
    self.generic_visit(n)
    if n.value is not None and isinstance(n.target, ast.Name):
      return ast.Assign(targets=[n.target], value=n.value)
    return n


def args(names):
  return ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def unsupported(msg):
  raise Unsupported(msg)


def instrument(fn, patch=None, module_functions=True):
  """the function recompiled from its current source, with symbolic collections; functions of its module likewise"""
  import sys, types
  fn = inspect.unwrap(fn)
  g = dict(fn.__globals__)
  g.update(BUILTINS)
  g['__sc'] = sys.modules[__name__]
  g.update(patch or {})

  def build(f):
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    d = tree.body[0]
    if not isinstance(d, ast.FunctionDef):
      raise Unsupported('not a plain function')
    d.decorator_list = []
    d.returns = None
    for a in d.args.args + d.args.kwonlyargs + d.args.posonlyargs:
      a.annotation = None
    tree = ast.fix_missing_locations(Rewriter().visit(tree))
    ns = {}
    exec(compile(tree, inspect.getsourcefile(f) or '<repo>', 'exec'), g, ns)
    h = ns[d.name]
    h.__kwdefaults__, h.__defaults__ = f.__kwdefaults__, f.__defaults__
    return h
  if module_functions:
    for nm, f in list(fn.__globals__.items()):
      if isinstance(f, types.FunctionType) and f.__module__ == fn.__module__ and nm not in (patch or {}) and f is not fn:
        def lazy(*a, _f=f, _c={}, **k):
          if 'h' not in _c:
            _c['h'] = build(_f)
          return _c['h'](*a, **k)
        g[nm] = lazy
  return build(fn)

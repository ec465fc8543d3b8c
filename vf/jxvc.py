"""Deductive back end for JAX code ("jxvc").

The real JAX function is traced (jax.make_jaxpr) with shape-polymorphic or
concrete sizes and *symbolic values*; the resulting jaxpr - the text JAX really
runs - is given an index-notation semantics: an array is a function from index
tuples (z3 integer terms) to a scalar term.

Scalar terms
  * integers / booleans: z3 terms
  * reals: sums of monomials  c * SUM_{bound vars} [guards] prod(atoms)
    with atoms  name[idx...], recip(term), opaque(fn; args)[idx...].
An equality obligation between two real terms is discharged by normalisation
(delta elimination, guard simplification, merging) and matching of monomials,
every side condition (index equality, guard equivalence, ranges) being a z3 query.
All arithmetic is over the reals (stated assumption).
"""
import itertools
from fractions import Fraction
import numpy as np
import z3

from vf.core import Failed, Unsupported

_cnt = itertools.count()


def fresh(name='v'):
  return z3.Int(f'{name}!{next(_cnt)}')


def is_sym(x):
  return isinstance(x, z3.ExprRef)


def iz(x):
  """to z3 Int"""
  if is_sym(x):
    return x
  return z3.IntVal(int(x))


def simp(e):
  return z3.simplify(e) if is_sym(e) else e


class Stats:
  queries = 0
  time = 0.0


_cache = {}


def valid(hyps, goal, timeout=8000):
  """hyps |= goal ?  True only when z3 proves it."""
  if isinstance(goal, bool):
    return goal
  goal = z3.simplify(goal)
  if z3.is_true(goal):
    return True
  hs = [h for h in hyps if not (isinstance(h, bool) and h)]
  key = (tuple(h.get_id() for h in hs if is_sym(h)), goal.get_id(), False in [h for h in hs if isinstance(h, bool)])
  if key in _cache:
    return _cache[key][0]
  s = z3.Solver()
  s.set('timeout', timeout)
  for h in hs:
    s.add(h)
  s.add(z3.Not(goal))
  Stats.queries += 1
  import time
  t = time.time()
  r = s.check() == z3.unsat
  Stats.time += time.time() - t
  _cache[key] = (r, hs, goal)   # keep terms alive (ids)
  return r


def unsat(hyps, timeout=8000):
  return valid(hyps, z3.BoolVal(False), timeout)


# ----------------------------------------------------------------------------- terms
class Atom:
  __slots__ = ('kind', 'name', 'idx', 'args')

  def __init__(self, kind, name, idx=(), args=()):
    self.kind, self.name, self.idx, self.args = kind, name, tuple(idx), tuple(args)

  def key(self):
    return (self.kind, self.name, len(self.idx), len(self.args))

  def subst(self, m):
    return Atom(self.kind, self.name,
                tuple(z3.substitute(i, *m) if is_sym(i) else i for i in self.idx),
                tuple(a.subst(m) if isinstance(a, (Poly,)) else
                      (a.subst(m) if isinstance(a, Arr) else a) for a in self.args))

  def __repr__(self):
    s = self.name
    if self.args:
      s += '(' + ','.join(map(repr, self.args)) + ')'
    if self.idx:
      s += '[' + ','.join(str(simp(i)) for i in self.idx) + ']'
    return s


class Mono:
  __slots__ = ('c', 'bound', 'guards', 'atoms')

  def __init__(self, c, bound=(), guards=(), atoms=()):
    self.c = c
    self.bound = tuple(bound)    # (var, size): 0 <= var < size
    self.guards = tuple(guards)
    self.atoms = tuple(atoms)

  def rename(self):
    if not self.bound:
      return self
    m = [(v, fresh('b')) for v, _ in self.bound]
    return Mono(self.c, [(w, z3.substitute(iz(n), *m) if is_sym(n) else n) for (v, w), (_, n) in zip(m, self.bound)],
                [z3.substitute(g, *m) for g in self.guards],
                [a.subst(m) for a in self.atoms])

  def subst(self, m):
    return Mono(self.c, [(v, z3.substitute(n, *m) if is_sym(n) else n) for v, n in self.bound],
                [z3.substitute(g, *m) for g in self.guards], [a.subst(m) for a in self.atoms])

  def ranges(self):
    out = []
    for v, n in self.bound:
      out += [v >= 0, v < iz(n)]
    return out

  def __repr__(self):
    s = str(self.c)
    if self.bound:
      s += ' SUM{' + ','.join(f'{v}<{n}' for v, n in self.bound) + '}'
    if self.guards:
      s += '[' + ' & '.join(str(z3.simplify(g)) for g in self.guards) + ']'
    return s + ' ' + '*'.join(map(repr, self.atoms))


class Poly:
  """Real term: sum of monomials."""
  __slots__ = ('ms',)

  def __init__(self, ms=()):
    self.ms = tuple(m for m in ms if m.c != 0)

  @staticmethod
  def const(c):
    if isinstance(c, Poly):
      return c
    return Poly([Mono(Fraction(c))])

  def __add__(self, o):
    return Poly(self.ms + Poly.const(o).ms)

  def __neg__(self):
    return Poly([Mono(-m.c, m.bound, m.guards, m.atoms) for m in self.ms])

  def __sub__(self, o):
    return self + (-Poly.const(o))

  def __mul__(self, o):
    o = Poly.const(o)
    out = []
    for a in self.ms:
      for b in o.ms:
        b2 = b.rename()
        a2 = a.rename() if (a is b or True) else a
        out.append(Mono(a2.c * b2.c, a2.bound + b2.bound, a2.guards + b2.guards, a2.atoms + b2.atoms))
    if len(out) > 20000:
      raise Unsupported('term too large')
    return Poly(out)

  def guard(self, g):
    if isinstance(g, (bool, np.bool_)):
      return self if g else Poly()
    g = z3.simplify(g)
    if z3.is_true(g):
      return self
    if z3.is_false(g):
      return Poly()
    return Poly([Mono(m.c, m.bound, m.guards + (g,), m.atoms) for m in self.ms])

  def subst(self, m):
    return Poly([x.subst(m) for x in self.ms])

  def as_const(self):
    """value if syntactically constant else None"""
    tot = Fraction(0)
    for m in self.ms:
      if m.bound or m.guards or m.atoms:
        return None
      tot += m.c
    return tot

  def __repr__(self):
    return ' + '.join(map(repr, self.ms)) or '0'


def atom(kind, name, idx=(), args=()):
  return Poly([Mono(Fraction(1), atoms=[Atom(kind, name, idx, args)])])


def sum_over(bound, body):
  """SUM over bound=[(var,size)] of Poly body (ranges of size one are eliminated)"""
  one = [(v, z3.IntVal(0)) for v, n in bound if not is_sym(n) and int(n) == 1]
  if one:
    bound = [(v, n) for v, n in bound if is_sym(n) or int(n) != 1]
    body = body.subst(one)
  return Poly([Mono(m.c, tuple(bound) + m.bound, m.guards, m.atoms) for m in body.ms])


class Arr:
  """Array as index function. dtype kind: 'f' real, 'i' int, 'b' bool."""
  __slots__ = ('shape', 'kind', 'fn', 'lin')

  def __init__(self, shape, kind, fn):
    self.shape, self.kind, self.fn = tuple(shape), kind, fn
    self.lin = None

  def at(self, *idx):
    assert len(idx) == len(self.shape), (idx, self.shape)
    return self.fn(*idx)

  @property
  def ndim(self):
    return len(self.shape)

  def subst(self, m):
    f = self.fn

    def g(*idx):
      # substitute in result, protecting idx by fresh placeholders
      ph = [fresh('p') for _ in idx]
      r = f(*ph)
      back = [(p, iz(i)) for p, i in zip(ph, idx)]
      if isinstance(r, Poly):
        return r.subst(m).subst(back)
      if is_sym(r):
        return z3.substitute(z3.substitute(r, *m), *back)
      return r
    return Arr(self.shape, self.kind, g)

  def __repr__(self):
    return f'Arr{self.shape}'


def rarr(name, shape):
  """Symbolic real array variable."""
  return Arr(shape, 'f', lambda *i: atom('var', name, [iz(x) for x in i]))


def iarr(name, shape):
  f = z3.Function(name, *([z3.IntSort()] * len(shape)), z3.IntSort()) if shape else z3.Int(name)
  return Arr(shape, 'i', (lambda *i: f(*[iz(x) for x in i])) if shape else (lambda: f))


def const_arr(a):
  a = np.asarray(a)
  kind = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'V': 'V'}.get(a.dtype.kind)
  if kind is None and a.dtype.kind == 'c':
    raise Unsupported('complex constant')
  if kind == 'V':   # float0
    return Arr(a.shape, 'f', lambda *i: Poly())
  if a.size and (a == a.ravel()[0]).all():
    v = a.ravel()[0].item()
    conv = {'f': lambda: Poly.const(Fraction(v)), 'i': lambda: z3.IntVal(int(v)),
            'b': lambda: z3.BoolVal(bool(v))}[kind]
    return Arr(a.shape, kind, lambda *i: conv())

  def fn(*idx):
    cidx = []
    for i in idx:
      i = z3.simplify(iz(i))
      cidx.append(i.as_long() if z3.is_int_value(i) else i)
    if all(isinstance(i, int) for i in cidx):
      v = a[tuple(cidx)].item()
      return (Poly.const(Fraction(v)) if kind == 'f' else
              z3.IntVal(v) if kind == 'i' else z3.BoolVal(v))
    if a.size > 4096:
      raise Unsupported('large constant array indexed symbolically')
    # case split over the symbolic axes
    if kind == 'f':
      out = Poly()
      for j in np.ndindex(*a.shape):
        g = [iz(c) == k for c, k in zip(cidx, j) if not (isinstance(c, int) and c == k)]
        if any(isinstance(c, int) and c != k for c, k in zip(cidx, j)):
          continue
        if a[j] != 0:
          out = out + Poly.const(Fraction(a[j].item())).guard(z3.And(*g) if g else True)
      return out
    res = None
    for j in np.ndindex(*a.shape):
      if any(isinstance(c, int) and c != k for c, k in zip(cidx, j)):
        continue
      g = [iz(c) == k for c, k in zip(cidx, j) if not isinstance(c, int)]
      v = z3.IntVal(a[j].item()) if kind == 'i' else z3.BoolVal(bool(a[j]))
      res = v if res is None else z3.If(z3.And(*g), v, res)
    return res
  return Arr(a.shape, kind, fn)


# ----------------------------------------------------------------------------- normalisation
def _flatten_guard(g, out):
  if z3.is_and(g):
    for c in g.children():
      _flatten_guard(c, out)
  elif z3.is_true(g):
    pass
  else:
    out.append(g)


def _contains(e, v):
  if not is_sym(e):
    return False
  seen, todo = set(), [e]
  vid = v.get_id()
  while todo:
    x = todo.pop()
    if x.get_id() == vid:
      return True
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    todo.extend(x.children())
  return False


def _delta(m, hyps):
  """Eliminates bound variables fixed by an equality guard."""
  changed = True
  while changed:
    changed = False
    gs = []
    for g in m.guards:
      _flatten_guard(z3.simplify(g), gs)
    if any(z3.is_false(g) for g in gs):
      return None
    m = Mono(m.c, m.bound, gs, m.atoms)
    for v, n in m.bound:
      for g in m.guards:
        if z3.is_eq(g):
          a, b = g.children()
          if a.sort() != z3.IntSort():
            continue
          e = None
          if a.get_id() == v.get_id() and not _contains(b, v):
            e = b
          elif b.get_id() == v.get_id() and not _contains(a, v):
            e = a
          else:
            e = _solve_linear(a, b, v)
          if e is None:
            continue
          rest = [x for x in m.guards if x is not g]
          sub = [(v, e)]
          nb = [(w, z3.substitute(k, *sub) if is_sym(k) else k) for w, k in m.bound if w.get_id() != v.get_id()]
          m2 = Mono(m.c, nb, [z3.substitute(x, *sub) for x in rest] +
                    [e >= 0, e < iz(n)], [a_.subst(sub) for a_ in m.atoms])
          m = m2
          changed = True
          break
      if changed:
        break
  return m


def _solve_linear(a, b, v):
  """solve a == b for v when v has coefficient +-1 (linear); None otherwise."""
  if not (_contains(a, v) or _contains(b, v)):
    return None
  d = z3.simplify(a - b, som=True)
  terms = d.children() if z3.is_add(d) else [d]
  coef, rest = 0, []
  for t in terms:
    if t.get_id() == v.get_id():
      coef += 1
    elif z3.is_mul(t) and len(t.children()) == 2 and z3.is_int_value(t.children()[0]) and t.children()[1].get_id() == v.get_id():
      coef += t.children()[0].as_long()
    elif _contains(t, v):
      return None
    else:
      rest.append(t)
  if coef == 1:
    return z3.simplify(-z3.Sum(rest)) if rest else z3.IntVal(0)
  if coef == -1:
    return z3.simplify(z3.Sum(rest)) if rest else z3.IntVal(0)
  return None


def _factors(e):
  if z3.is_mul(e):
    return [f for c in e.children() for f in _factors(c)]
  return [e]


def _cancel(size, n):
  """size / n when size is syntactically a multiple of n; None otherwise."""
  size, n = z3.simplify(iz(size)), z3.simplify(iz(n))
  if z3.is_int_value(size) and z3.is_int_value(n):
    a, b = size.as_long(), n.as_long()
    return z3.IntVal(a // b) if b > 0 and a % b == 0 else None
  fs, c, d = [], 1, 1
  for f in _factors(size):
    if z3.is_int_value(f):
      c *= f.as_long()
    else:
      fs.append(f)
  for f in _factors(n):
    if z3.is_int_value(f):
      d *= f.as_long()
      continue
    k = next((i for i, g in enumerate(fs) if g.get_id() == f.get_id()), None)
    if k is None:
      return None
    fs.pop(k)
  if d <= 0 or c % d:
    return None
  return z3.simplify(z3.Product([z3.IntVal(c // d)] + fs))


def _divisor(e, v, seen):
  """some n with v % n or v / n a subterm of e"""
  if not is_sym(e) or e.get_id() in seen:
    return None
  seen.add(e.get_id())
  if e.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and e.children()[0].get_id() == v.get_id():
    return e.children()[1]
  for c in e.children():
    n = _divisor(c, v, seen)
    if n is not None:
      return n
  return None


def _split(m, hyps):
  """A sum over a flattened index k < a*n whose body uses k / n and k % n is the
  double sum over k / n < a and k % n < n."""
  todo = list(m.bound)
  while todo:
    v, size = todo.pop()
    n = None
    seen = set()
    for e in list(m.guards) + [i for a in m.atoms for i in a.idx]:
      n = _divisor(e, v, seen)
      if n is not None:
        break
    if n is None or any(_contains(iz(k), v) or _contains(n, w) for w, k in m.bound):
      continue
    a = _cancel(size, n)
    if a is None or not valid(list(hyps), n >= 1):
      continue
    q, r = fresh('q'), fresh('r')
    body = Mono(m.c, (), [z3.simplify(g) for g in m.guards], m.atoms)
    sub = [(v / n, q), (v % n, r)]
    body = body.subst(sub).subst([(v, q * n + r)])
    m = Mono(m.c, [(w, k) for w, k in m.bound if w.get_id() != v.get_id()] + [(q, a), (r, n)],
             body.guards, body.atoms)
    todo.append((q, a))
  return m


def normalise(p, hyps):
  out = []
  for m in p.ms:
    m = _delta(_split(m, hyps), hyps)
    if m is None:
      continue
    ctx = list(hyps) + m.ranges()
    gs = list(m.guards)
    # drop implied guards
    keep = []
    for i, g in enumerate(gs):
      others = keep + gs[i + 1:]
      if valid(ctx + others, g, 3000):
        continue
      keep.append(g)
    if keep and unsat(ctx + keep, 3000):
      continue
    atoms = []
    c = m.c
    for a in m.atoms:
      a = Atom(a.kind, a.name, [z3.simplify(i) if is_sym(i) else i for i in a.idx], a.args)
      atoms.append(a)
    out.append(Mono(c, m.bound, keep, atoms))
  return Poly(out)


def _idx_eq(ctx, a, b):
  if len(a) != len(b):
    return False
  for x, y in zip(a, b):
    x, y = iz(x), iz(y)
    if x.get_id() == y.get_id():
      continue
    if not valid(ctx, x == y, 4000):
      return False
  return True


def atom_eq(ctx, a, b):
  if a.key() != b.key():
    return False
  if not _idx_eq(ctx, a.idx, b.idx):
    return False
  for x, y in zip(a.args, b.args):
    if isinstance(x, Poly) and isinstance(y, Poly):
      if not poly_eq(x, y, ctx):
        return False
    elif isinstance(x, Arr) and isinstance(y, Arr):
      if not arr_eq(x, y, ctx):
        return False
    elif is_sym(x) and is_sym(y):
      if not valid(ctx, x == y):
        return False
    elif x != y:
      return False
  return True


def arr_eq(x, y, ctx):
  if len(x.shape) != len(y.shape) or x.kind != y.kind:
    return False
  for s, t in zip(x.shape, y.shape):
    if is_sym(s) or is_sym(t):
      if not valid(ctx, iz(s) == iz(t)):
        return False
    elif int(s) != int(t):
      return False
  idx = [fresh('i') for _ in x.shape]
  rng = [z3.And(i >= 0, i < iz(n)) for i, n in zip(idx, x.shape)]
  a, b = x.at(*idx), y.at(*idx)
  if x.kind == 'f':
    return poly_eq(a, b, list(ctx) + rng)
  return valid(list(ctx) + rng, a == b)


def _match_atoms(ctx, A, B):
  """multiset equality of atoms by backtracking"""
  if len(A) != len(B):
    return False
  if not A:
    return True
  a, rest = A[0], A[1:]
  # syntactic first
  order = sorted(range(len(B)), key=lambda j: 0 if (B[j].key() == a.key() and all(
      iz(x).get_id() == iz(y).get_id() for x, y in zip(a.idx, B[j].idx))) else 1)
  for j in order:
    if B[j].key() != a.key():
      continue
    if atom_eq(ctx, a, B[j]):
      if _match_atoms(ctx, rest, B[:j] + B[j + 1:]):
        return True
  return False


def _perms(m1, m2, hyps):
  """candidate bijections bound(m2) -> bound(m1) compatible with ranges, guided by atoms"""
  n = len(m1.bound)
  compat = []
  for v, s in m2.bound:
    c = []
    for j, (w, t) in enumerate(m1.bound):
      if is_sym(s) or is_sym(t):
        ok = iz(s).get_id() == iz(t).get_id() or valid(hyps, iz(s) == iz(t))
      else:
        ok = int(s) == int(t)
      if ok:
        c.append(j)
    compat.append(c)
  # signature-based pruning: for a bound variable, the multiset of (atom key, position)
  def sig(m, v):
    out = []
    for a in m.atoms:
      for k, i in enumerate(a.idx):
        if is_sym(i) and i.get_id() == v.get_id():
          out.append((a.key(), k))
    return sorted(out, key=repr)
  s1 = [sig(m1, v) for v, _ in m1.bound]
  s2 = [sig(m2, v) for v, _ in m2.bound]
  pref = [[j for j in c if s1[j] == s2[i]] for i, c in enumerate(compat)]
  def rec(i, used, cands):
    if i == n:
      yield []
      return
    for j in cands[i]:
      if j in used:
        continue
      for r in rec(i + 1, used | {j}, cands):
        yield [j] + r
  seen = set()
  for r in rec(0, frozenset(), pref):
    seen.add(tuple(r)); yield r
  k = 0
  for r in rec(0, frozenset(), compat):
    if tuple(r) in seen:
      continue
    k += 1
    if k > 200:
      return
    yield r


def _same_body(m1, m2, hyps):
  """If the monomials agree up to guards, returns m2's guards in m1's variables."""
  if len(m1.bound) != len(m2.bound) or len(m1.atoms) != len(m2.atoms):
    return None
  if sorted(a.key() for a in m1.atoms) != sorted(a.key() for a in m2.atoms):
    return None
  if not m1.bound:
    ctx = list(hyps) + list(m1.guards)
    if _match_atoms(ctx, m1.atoms, m2.atoms):
      return list(m2.guards)
    return None
  for perm in _perms(m1, m2, hyps):
    sub = [(m2.bound[i][0], m1.bound[j][0]) for i, j in enumerate(perm)]
    n2 = Mono(m2.c, [], m2.guards, m2.atoms).subst(sub)
    ctx = list(hyps) + m1.ranges() + list(m1.guards)
    if _match_atoms(ctx, m1.atoms, n2.atoms):
      return list(n2.guards)
  return None


ROUNDING = Fraction(1, 10 ** 13)


SMALL = 3


def _expand_small(d):
  """Writes out the sums over at most SMALL values whose variable stands where another
  monomial has a constant index (components computed one at a time against a component sum)."""
  consts = {}
  for m in d.ms:
    for a in m.atoms:
      for k, i in enumerate(a.idx):
        if z3.is_int_value(iz(i)):
          consts.setdefault((a.key(), k), True)
  out, todo, changed = [], list(d.ms), False
  while todo:
    m = todo.pop()
    hit = None
    for v, n in m.bound:
      if is_sym(n) and not z3.is_int_value(n):
        continue
      n = n.as_long() if is_sym(n) else int(n)
      if n <= SMALL and (any((a.key(), k) in consts and is_sym(i) and i.get_id() == v.get_id()
                             for a in m.atoms for k, i in enumerate(a.idx)) or
                         any(_contains(g, v) for g in m.guards)):
        hit = (v, n)
        break
    if hit is None:
      out.append(m)
      continue
    changed = True
    v, n = hit
    nb = [(w, k) for w, k in m.bound if w.get_id() != v.get_id()]
    for j in range(n):
      todo.append(Mono(m.c, nb, m.guards, m.atoms).subst([(v, z3.IntVal(j))]))
  return Poly(out) if changed else None


def poly_eq(p, q, hyps, why=None):
  """p == q for all values of the real variables, under hyps."""
  d = normalise(p - q, hyps)
  if _poly_zero(d, p, q, hyps, why):
    return True
  e = _expand_small(d)
  return e is not None and _poly_zero(normalise(e, hyps), p, q, hyps, None)


def _poly_zero(d, p, q, hyps, why=None):
  ms = list(d.ms)
  # floating-point constants folded on the host (1 - alpha, 2 / k, ...) may differ by rounding between equal formulas
  eps = ROUNDING * max([abs(m.c) for m in list(p.ms) + list(q.ms)], default=0)
  groups = []   # representative mono + list of (coef, guards)
  for m in ms:
    for g in groups:
      gg = _same_body(g[0], m, hyps)
      if gg is None and g[0].guards:
        # bodies may agree only under m's guards: retry with roles swapped
        gg2 = _same_body(m, g[0], hyps)
        if gg2 is not None:
          gg = None
          h = _same_body_sub(g[0], m, hyps)
          gg = h
      if gg is not None:
        g[1].append((m.c, gg))
        break
    else:
      groups.append((m, [(m.c, list(m.guards))]))
  for rep, parts in groups:
    ctx = list(hyps) + rep.ranges()
    if all(not g for _, g in parts):
      if abs(sum(c for c, _ in parts)) > eps:
        if why is not None:
          why.append(f'residual {sum(c for c,_ in parts)} * {rep}')
        return False
      continue
    tot = z3.Sum([z3.If(z3.And(*g) if g else z3.BoolVal(True),
                        z3.RealVal(str(c)), z3.RealVal(0)) for c, g in parts])
    bound = z3.RealVal(str(eps))
    if not valid(ctx, tot == 0) and not valid(ctx, z3.And(tot <= bound, tot >= -bound)):
      if why is not None:
        why.append(f'residual guards {[(str(c), str(g)) for c, g in parts]} on {rep}')
      return False
  return True


def _same_body_sub(m1, m2, hyps):
  """like _same_body(m1, m2) but atoms compared under m2's guards (mapped)."""
  for perm in (_perms(m1, m2, hyps) if m1.bound else [[]]):
    sub = [(m2.bound[i][0], m1.bound[j][0]) for i, j in enumerate(perm)]
    n2 = Mono(m2.c, [], m2.guards, m2.atoms).subst(sub) if sub else m2
    ctx = list(hyps) + m1.ranges() + list(n2.guards)
    if _match_atoms(ctx, m1.atoms, n2.atoms):
      return list(n2.guards)
  return None


def prove_eq(p, q, hyps, what=''):
  why = []
  if not poly_eq(p, q, hyps, why):
    raise Failed(f'{what}: terms differ: {why[:3]}\n  got: {normalise(p, hyps)!r}'[:3000] +
                 f'\n  want: {normalise(q, hyps)!r}'[:2000])


def prove_arr_eq(x, y, hyps=(), what=''):
  if len(x.shape) != len(y.shape):
    raise Failed(f'{what}: rank differs {x.shape} vs {y.shape}')
  for s, t in zip(x.shape, y.shape):
    ok = valid(hyps, iz(s) == iz(t))
    if not ok:
      raise Failed(f'{what}: shape differs {x.shape} vs {y.shape}')
  idx = [fresh('i') for _ in x.shape]
  rng = [z3.And(i >= 0, i < iz(n)) for i, n in zip(idx, x.shape)]
  a, b = x.at(*idx), y.at(*idx)
  if x.kind != y.kind:
    raise Failed(f'{what}: dtype kinds differ {x.kind} {y.kind}')
  if x.kind == 'f':
    small = [i for i, n in zip(idx, x.shape) if not is_sym(n) and 1 < int(n) <= SMALL]
    size = {i.get_id(): int(n) for i, n in zip(idx, x.shape) if i in small}
    try:
      prove_eq(a, b, list(hyps) + rng, what)
    except Failed:
      if not small:
        raise
      # by cases over the short axes (space dimensions, components)
      for js in itertools.product(*[range(size[i.get_id()]) for i in small]):
        sub = [(i, z3.IntVal(j)) for i, j in zip(small, js)]
        ctx = [z3.substitute(h, *sub) for h in rng]
        prove_eq(x.at(*[z3.substitute(i, *sub) for i in idx]), y.at(*[z3.substitute(i, *sub) for i in idx]),
                 list(hyps) + ctx, f'{what} [component {js}]')
  elif not valid(list(hyps) + rng, a == b):
    raise Failed(f'{what}: integer/boolean arrays differ')


def prove(hyps, goal, what=''):
  if not valid(hyps, goal, 20000):
    s = z3.Solver(); s.set('timeout', 5000)
    for h in hyps:
      if is_sym(h):
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    raise Failed(f'{what}: not valid ({r})', model=str(s.model()) if r == z3.sat else None)


# ----------------------------------------------------------------------------- jaxpr interpretation
class Interp:

  def __init__(self, hyps=(), opaque=None, dim_env=None, nums=None):
    self.hyps = list(hyps)
    self.opaque = opaque or {}      # primitive name -> handler(self, eqn, invals) -> list of Arr
    self.dim_env = dim_env or {}    # symbolic dim string -> z3 Int
    self.prims = set()
    self.axis_sizes = {}

  # dims
  def dim(self, d):
    if isinstance(d, (int, np.integer)):
      return int(d)
    # jax symbolic dim: evaluate via its own evaluator on z3 ints
    from jax._src.export import shape_poly
    env = {k: v for k, v in self.dim_env.items()}

    class W:   # wrapper with operators for shape_poly evaluation
      pass
    s = str(d)
    return parse_dim(s, env)

  def shape(self, aval):
    return tuple(self.dim(d) for d in aval.shape)

  def run(self, closed, *args):
    jaxpr = closed.jaxpr
    return self.eval(jaxpr, [self.lift(c) for c in closed.consts], list(args))

  def lift(self, c):
    if isinstance(c, Arr):
      return c
    return const_arr(np.asarray(c))

  def eval(self, jaxpr, consts, args):
    import jax
    env = {}

    def read(v):
      if type(v).__name__ == 'Literal':
        return const_arr(np.asarray(v.val))
      return env[v]
    assert len(jaxpr.constvars) == len(consts)
    assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
    for v, c in zip(jaxpr.constvars, consts):
      env[v] = c
    for v, a in zip(jaxpr.invars, args):
      env[v] = a
    for eqn in jaxpr.eqns:
      name = eqn.primitive.name
      self.prims.add(name)
      ins = [read(v) for v in eqn.invars]
      if name in self.opaque:
        outs = self.opaque[name](self, eqn, ins)
      else:
        h = getattr(self, 'p_' + name.replace('-', '_'), None)
        if h is None:
          raise Unsupported(f'primitive {name}')
        outs = h(eqn, *ins)
      if isinstance(outs, Arr):
        outs = [outs]
      for v, o in zip(eqn.outvars, outs):
        env[v] = memo(o)
    return [read(v) for v in jaxpr.outvars]

  # ---- structural
  def kindof(self, aval):
    k = aval.dtype.kind if hasattr(aval.dtype, 'kind') else 'f'
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'V': 'f'}.get(k, 'x')

  def p_broadcast_in_dim(self, eqn, x, *dyn):
    shp = self.shape(eqn.outvars[0].aval)
    bd = eqn.params['broadcast_dimensions']

    def fn(*idx):
      src = []
      for k, d in enumerate(bd):
        s = x.shape[k]
        if not is_sym(s) and int(s) == 1 and not (not is_sym(shp[d]) and int(shp[d]) == 1):
          src.append(z3.IntVal(0))
        else:
          src.append(iz(idx[d]))
      return x.at(*src)
    return Arr(shp, x.kind, fn)

  def p_reshape(self, eqn, x, *dyn):
    return reshape(x, self.shape(eqn.outvars[0].aval))

  def p_squeeze(self, eqn, x):
    dims = set(eqn.params['dimensions'])
    shp = self.shape(eqn.outvars[0].aval)
    n = len(x.shape)

    def fn(*idx):
      it = iter(idx)
      return x.at(*[z3.IntVal(0) if k in dims else next(it) for k in range(n)])
    return Arr(shp, x.kind, fn)

  def p_expand_dims(self, eqn, x):
    return reshape(x, self.shape(eqn.outvars[0].aval))

  def p_transpose(self, eqn, x):
    perm = eqn.params['permutation']
    shp = tuple(x.shape[p] for p in perm)

    def fn(*idx):
      src = [None] * len(perm)
      for k, p in enumerate(perm):
        src[p] = idx[k]
      return x.at(*src)
    return Arr(shp, x.kind, fn)

  def p_rev(self, eqn, x):
    dims = set(eqn.params['dimensions'])

    def fn(*idx):
      return x.at(*[iz(x.shape[k]) - 1 - iz(i) if k in dims else i for k, i in enumerate(idx)])
    return Arr(x.shape, x.kind, fn)

  def p_slice(self, eqn, x):
    st = [self.dim(s) for s in eqn.params['start_indices']]
    sd = eqn.params['strides'] or [1] * len(st)
    shp = self.shape(eqn.outvars[0].aval)
    return Arr(shp, x.kind, lambda *idx: x.at(*[iz(i) * iz(self.dim(d)) + iz(s) for i, s, d in zip(idx, st, sd)]))

  def p_dynamic_slice(self, eqn, x, *starts):
    shp = self.shape(eqn.outvars[0].aval)
    k = len(x.shape)
    st = []
    for s, n, m in zip(starts[:k], x.shape, shp):
      v = s.at()
      lim = iz(n) - iz(m)
      v2 = z3.simplify(v)
      st.append(z3.simplify(z3.If(v2 < 0, z3.IntVal(0), z3.If(v2 > lim, lim, v2))))
    return Arr(shp, x.kind, lambda *idx: x.at(*[iz(i) + s for i, s in zip(idx, st)]))

  def p_dynamic_update_slice(self, eqn, x, u, *starts):
    st = []
    for s, n, m in zip(starts, x.shape, u.shape):
      v = s.at()
      lim = iz(n) - iz(m)
      st.append(z3.simplify(z3.If(v < 0, z3.IntVal(0), z3.If(v > lim, lim, v))))

    def fn(*idx):
      c = [z3.And(iz(i) >= s, iz(i) < s + iz(m)) for i, s, m in zip(idx, st, u.shape)]
      c = z3.And(*c) if c else z3.BoolVal(True)
      return ite(c, u.at(*[iz(i) - s for i, s in zip(idx, st)]), x.at(*idx), x.kind)
    return Arr(x.shape, x.kind, fn)

  def p_concatenate(self, eqn, *xs):
    d = eqn.params['dimension']
    shp = self.shape(eqn.outvars[0].aval)

    def fn(*idx):
      off = z3.IntVal(0)
      i = iz(idx[d])
      out = None
      parts = []
      for x in xs:
        parts.append((off, x))
        off = off + iz(x.shape[d])
      ci = z3.simplify(i)
      def sel(x, o):
        j = list(idx); j[d] = i - o
        return x.at(*j)
      if z3.is_int_value(ci) and all(z3.is_int_value(z3.simplify(o)) for o, _ in parts):
        c = ci.as_long()
        for o, x in parts:
          o2 = z3.simplify(o).as_long()
          if o2 <= c < o2 + int(x.shape[d]):
            return sel(x, o)
      if xs[0].kind == 'f':
        out = Poly()
        for o, x in parts:
          if not is_sym(x.shape[d]) and int(x.shape[d]) == 0:
            continue
          out = out + sel(x, o).guard(z3.And(i >= o, i < o + iz(x.shape[d])))
        return out
      res = sel(parts[-1][1], parts[-1][0])
      for o, x in reversed(parts[:-1]):
        res = z3.If(i < o + iz(x.shape[d]), sel(x, o), res)
      return res
    return Arr(shp, xs[0].kind, fn)

  def p_split(self, eqn, x):
    d, outs, off = eqn.params['axis'], [], z3.IntVal(0)
    for ov in eqn.outvars:
      shp = self.shape(ov.aval)
      outs.append(Arr(shp, x.kind, lambda *idx, o=off: x.at(
          *[iz(i) + o if k == d else i for k, i in enumerate(idx)])))
      off = z3.simplify(off + iz(shp[d]))
    return outs

  def p_scan(self, eqn, *ins):
    p = eqn.params
    nk, nc = p['num_consts'], p['num_carry']
    consts, init, xs = list(ins[:nk]), list(ins[nk:nk + nc]), list(ins[nk + nc:])
    n = self.dim(p['length']) if not isinstance(p['length'], int) else p['length']
    if not is_sym(n) and n <= getattr(self, 'unroll_scan', 0):
      carry, rows = init, [None] * n
      for k in (range(n - 1, -1, -1) if p['reverse'] else range(n)):
        xk = [Arr(x.shape[1:], x.kind, lambda *i, x=x, k=k: x.at(z3.IntVal(k), *i)) for x in xs]
        out = self._call(p['jaxpr'], consts + carry + xk)
        carry, rows[k] = out[:nc], out[nc:]
      ys = []
      for j in range(len(eqn.outvars) - nc):
        def fn(k, *i, j=j):
          kk = z3.simplify(iz(k))
          if z3.is_int_value(kk):
            return rows[kk.as_long()][j].at(*i)
          v = rows[-1][j].at(*i)
          for q in range(n - 2, -1, -1):
            v = ite(kk == q, rows[q][j].at(*i), v, rows[0][j].kind)
          return v
        ys.append(Arr((n,) + tuple(rows[0][j].shape), rows[0][j].kind, fn))
      return carry + ys
    if getattr(self, 'scan_hook', None) is None:
      raise Unsupported('scan loop without a loop contract')
    return self.scan_hook(self, eqn, n, consts, init, xs)

  def p_pad(self, eqn, x, v):
    cfg = eqn.params['padding_config']
    shp = self.shape(eqn.outvars[0].aval)
    if any(i != 0 for _, _, i in cfg):
      raise Unsupported('interior padding')

    def fn(*idx):
      src = [iz(i) - self.dim(lo) for i, (lo, _, _) in zip(idx, cfg)]
      c = z3.And(*[z3.And(s >= 0, s < iz(n)) for s, n in zip(src, x.shape)])
      return ite(c, x.at(*src), v.at(), x.kind)
    return Arr(shp, x.kind, fn)

  def p_iota(self, eqn, *dyn):
    d = eqn.params['dimension']
    shp = self.shape(eqn.outvars[0].aval)
    k = self.kindof(eqn.outvars[0].aval)
    if k == 'f':
      raise Unsupported('float iota')
    return Arr(shp, 'i', lambda *idx: iz(idx[d]))

  def p_copy(self, eqn, x):
    return x
  p_copy_p = p_stop_gradient = p_optimization_barrier = p_copy

  def p_convert_element_type(self, eqn, x):
    k = self.kindof(eqn.outvars[0].aval)
    if k == x.kind:
      return x
    return convert(x, k)

  def p_dim_as_value(self, eqn):
    d = self.dim(eqn.params['dim'])
    return Arr((), 'i', lambda: iz(d))

  # ---- elementwise
  def ew(self, eqn, f, *xs, kind=None):
    shp = self.shape(eqn.outvars[0].aval)
    return Arr(shp, kind or xs[0].kind, lambda *idx: f(*[x.at(*idx) if x.shape else x.at() for x in xs]))

  def p_add(self, eqn, a, b):
    if a.kind == 'b':
      return self.ew(eqn, z3.Or, a, b)
    return self.ew(eqn, lambda x, y: x + y, a, b)
  p_add_any = p_add

  def p_sub(self, eqn, a, b):
    return self.ew(eqn, lambda x, y: x - y, a, b)

  def p_mul(self, eqn, a, b):
    if a.kind == 'b':
      return self.ew(eqn, z3.And, a, b)
    return self.ew(eqn, lambda x, y: x * y, a, b)

  def p_neg(self, eqn, a):
    return self.ew(eqn, lambda x: -x, a)

  def p_div(self, eqn, a, b):
    if a.kind == 'i':
      raise Unsupported('integer division')
    return self.ew(eqn, lambda x, y: x * recip(y), a, b)

  def p_integer_pow(self, eqn, a):
    n = eqn.params['y']

    def f(x):
      if n < 0:
        x = recip(x)
      r = Poly.const(1)
      for _ in range(abs(n)):
        r = r * x
      return r
    return self.ew(eqn, f, a)

  def p_square(self, eqn, a):
    return self.ew(eqn, lambda x: x * x, a)

  def p_sqrt(self, eqn, a):
    return self.ew(eqn, lambda x: atom('fn', 'sqrt', (), (x,)), a)

  def _unary(name):
    def h(self, eqn, a):
      return self.ew(eqn, lambda x: atom('fn', name, (), (x,)), a)
    return h
  p_sin, p_cos, p_exp, p_log, p_tanh, p_abs = map(_unary, ['sin', 'cos', 'exp', 'log', 'tanh', 'abs'])

  def p_max(self, eqn, a, b):
    if a.kind == 'i':
      return self.ew(eqn, lambda x, y: z3.If(x >= y, x, y), a, b)
    return self.ew(eqn, lambda x, y: atom('fn', 'max', (), (x, y)), a, b)

  def p_min(self, eqn, a, b):
    if a.kind == 'i':
      return self.ew(eqn, lambda x, y: z3.If(x <= y, x, y), a, b)
    return self.ew(eqn, lambda x, y: atom('fn', 'min', (), (x, y)), a, b)

  def cmp(self, eqn, f, a, b, name):
    if a.kind == 'f':
      raise Unsupported('comparison of reals in index mode')
    return self.ew(eqn, f, a, b, kind='b')

  def p_eq(self, eqn, a, b): return self.cmp(eqn, lambda x, y: x == y, a, b, 'eq')
  def p_ne(self, eqn, a, b): return self.cmp(eqn, lambda x, y: x != y, a, b, 'ne')
  def p_lt(self, eqn, a, b): return self.cmp(eqn, lambda x, y: x < y, a, b, 'lt')
  def p_le(self, eqn, a, b): return self.cmp(eqn, lambda x, y: x <= y, a, b, 'le')
  def p_gt(self, eqn, a, b): return self.cmp(eqn, lambda x, y: x > y, a, b, 'gt')
  def p_ge(self, eqn, a, b): return self.cmp(eqn, lambda x, y: x >= y, a, b, 'ge')

  def p_and(self, eqn, a, b):
    if a.kind != 'b':
      raise Unsupported('bitwise and on integers')
    return self.ew(eqn, z3.And, a, b)

  def p_or(self, eqn, a, b):
    if a.kind != 'b':
      raise Unsupported('bitwise or on integers')
    return self.ew(eqn, z3.Or, a, b)

  def p_xor(self, eqn, a, b):
    if a.kind != 'b':
      raise Unsupported('bitwise xor on integers')
    return self.ew(eqn, z3.Xor, a, b)

  def p_not(self, eqn, a):
    return self.ew(eqn, z3.Not, a)

  def p_select_n(self, eqn, which, *cases):
    shp = self.shape(eqn.outvars[0].aval)
    k = cases[0].kind

    def fn(*idx):
      w = which.at(*idx) if which.shape else which.at()
      if which.kind == 'b':
        return ite(w, cases[1].at(*idx), cases[0].at(*idx), k)
      out = cases[-1].at(*idx)
      for j in range(len(cases) - 2, -1, -1):
        out = ite(w == j, cases[j].at(*idx), out, k)
      return out
    return Arr(shp, k, fn)

  def p_clamp(self, eqn, lo, x, hi):
    shp = self.shape(eqn.outvars[0].aval)

    def fn(*idx):
      l, v, h = [y.at(*idx) if y.shape else y.at() for y in (lo, x, hi)]
      return z3.If(v < l, l, z3.If(v > h, h, v))
    if x.kind != 'i':
      raise Unsupported('clamp of reals')
    return Arr(shp, 'i', fn)

  # ---- reductions
  def p_reduce_sum(self, eqn, x):
    axes = set(eqn.params['axes'])
    shp = self.shape(eqn.outvars[0].aval)
    if x.kind == 'i':
      raise Unsupported('integer sum')

    def fn(*idx):
      bound, src, it = [], [], iter(idx)
      for k, n in enumerate(x.shape):
        if k in axes:
          if not is_sym(n) and int(n) == 1:
            src.append(z3.IntVal(0))
          else:
            v = fresh('s'); bound.append((v, n)); src.append(v)
        else:
          src.append(next(it))
      return sum_over(bound, x.at(*src))
    return Arr(shp, 'f', fn)

  def _reduce_bool(self, eqn, x, comb):
    axes = set(eqn.params['axes'])
    shp = self.shape(eqn.outvars[0].aval)
    if x.kind != 'b':
      raise Unsupported('bitwise reduction of integers')

    def fn(*idx):
      red, src, it = [], [], iter(idx)
      for k, n in enumerate(x.shape):
        if k in axes:
          v = fresh('r'); red.append((v, n)); src.append(v)
        else:
          src.append(next(it))
      body = x.at(*src)
      size = 1
      for v, n in red:
        size = size * int(n) if not is_sym(n) and size is not None else None
      if size is not None and size <= 64:
        cs = [z3.substitute(body, *[(v, z3.IntVal(j)) for (v, _), j in zip(red, js)])
              for js in itertools.product(*[range(int(n)) for _, n in red])]
        return z3.simplify(comb(*cs)) if cs else z3.BoolVal(comb is z3.And)
      rng = z3.And(*[z3.And(v >= 0, v < iz(n)) for v, n in red])
      vs = [v for v, _ in red]
      return z3.ForAll(vs, z3.Implies(rng, body)) if comb is z3.And else z3.Exists(vs, z3.And(rng, body))
    return Arr(shp, 'b', fn)

  def p_reduce_or(self, eqn, x): return self._reduce_bool(eqn, x, z3.Or)
  def p_reduce_and(self, eqn, x): return self._reduce_bool(eqn, x, z3.And)

  def p_dot_general(self, eqn, a, b):
    (lc, rc), (lb, rb) = eqn.params['dimension_numbers']
    shp = self.shape(eqn.outvars[0].aval)
    la = [k for k in range(len(a.shape)) if k not in lc and k not in lb]
    ra = [k for k in range(len(b.shape)) if k not in rc and k not in rb]

    def fn(*idx):
      ia, ib = [None] * len(a.shape), [None] * len(b.shape)
      p = 0
      for x, y in zip(lb, rb):
        ia[x] = ib[y] = idx[p]; p += 1
      for x in la:
        ia[x] = idx[p]; p += 1
      for y in ra:
        ib[y] = idx[p]; p += 1
      bound = []
      for x, y in zip(lc, rc):
        n = a.shape[x]
        if not is_sym(n) and int(n) == 1:
          ia[x] = ib[y] = z3.IntVal(0)
        else:
          v = fresh('s'); bound.append((v, n)); ia[x] = ib[y] = v
      return sum_over(bound, a.at(*ia) * b.at(*ib))
    if a.kind != 'f' or b.kind != 'f':
      raise Unsupported('integer dot')
    return Arr(shp, 'f', fn)

  # ---- gather / scatter
  def p_gather(self, eqn, x, ind):
    dn = eqn.params['dimension_numbers']
    ss = [self.dim(s) for s in eqn.params['slice_sizes']]
    mode = str(eqn.params['mode'])
    shp = self.shape(eqn.outvars[0].aval)
    ob = list(dn.operand_batching_dims)
    sb = list(dn.start_indices_batching_dims)
    off = list(dn.offset_dims)
    batch_out = [d for d in range(len(shp)) if d not in off]
    kept = [d for d in range(len(x.shape)) if d not in dn.collapsed_slice_dims and d not in ob]
    fillv = eqn.params.get('fill_value')

    def fn(*idx):
      bidx = [idx[d] for d in batch_out]
      starts = [ind.at(*bidx, z3.IntVal(k)) for k in range(len(dn.start_index_map))]
      src = [z3.IntVal(0)] * len(x.shape)
      for k, d in enumerate(dn.start_index_map):
        src[d] = starts[k]
      for o, s in zip(ob, sb):
        src[o] = iz(bidx[s])
      conds = []
      for d in range(len(x.shape)):
        if d in dn.start_index_map:
          lim = iz(x.shape[d]) - iz(ss[d])
          if 'CLIP' in mode:
            src[d] = z3.If(src[d] < 0, z3.IntVal(0), z3.If(src[d] > lim, lim, src[d]))
          else:
            conds.append(z3.And(src[d] >= 0, src[d] <= lim))
      for d, o in zip(kept, off):
        src[d] = src[d] + iz(idx[o])
      val = x.at(*[z3.simplify(s) for s in src])
      if 'FILL' in mode:
        c = z3.And(*conds) if conds else z3.BoolVal(True)
        fv = fillv
        if x.kind == 'f':
          nan = fv is None or float(fv) != float(fv) or abs(float(fv)) == float('inf')
          other = atom('var', 'NaN') if nan else Poly.const(Fraction(float(fv)))
        if x.kind == 'i':
          other = z3.IntVal(-2**31 if fv is None else int(fv))
        if x.kind == 'b':
          other = z3.BoolVal(True)
        return ite(c, val, other, x.kind)
      return val
    return Arr(shp, x.kind, fn)

  def _scatter(self, eqn, x, ind, upd, add):
    dn = eqn.params['dimension_numbers']
    mode = str(eqn.params['mode'])
    ob = list(dn.operand_batching_dims)
    sb = list(dn.scatter_indices_batching_dims)
    uw = list(dn.update_window_dims)
    kept = [d for d in range(len(x.shape)) if d not in dn.inserted_window_dims and d not in ob]
    ubatch = [d for d in range(len(upd.shape)) if d not in uw]

    def fn(*idx):
      vs = [fresh('u') for _ in upd.shape]
      vs = [z3.IntVal(0) if (not is_sym(n) and int(n) == 1) else v for v, n in zip(vs, upd.shape)]
      bound = [(v, n) for v, n in zip(vs, upd.shape) if not z3.is_int_value(v)]
      bidx = [vs[d] for d in ubatch]
      tgt = [z3.IntVal(0)] * len(x.shape)
      starts = [ind.at(*bidx, z3.IntVal(k)) for k in range(len(dn.scatter_dims_to_operand_dims))]
      wsize = {d: iz(1) for d in range(len(x.shape))}
      for d, o in zip(kept, uw):
        wsize[d] = iz(upd.shape[o])
      conds = []
      for k, d in enumerate(dn.scatter_dims_to_operand_dims):
        t = starts[k]
        lim = iz(x.shape[d]) - wsize[d]
        if 'CLIP' in mode:
          t = z3.If(t < 0, z3.IntVal(0), z3.If(t > lim, lim, t))
        else:
          conds.append(z3.And(t >= 0, t <= lim))
        tgt[d] = t
      for o, s in zip(ob, sb):
        tgt[o] = iz(bidx[s])
      for d, o in zip(kept, uw):
        tgt[d] = tgt[d] + vs[o]
      g = z3.And(*([iz(i) == t for i, t in zip(idx, tgt)] + conds)) if idx else z3.And(*conds) if conds else z3.BoolVal(True)
      if add:
        return x.at(*idx) + sum_over(bound, upd.at(*vs).guard(g))
      # overwrite: supported when the updates are uniquely indexed (bound-free)
      if bound:
        # static-window overwrite: each bound var must be determined by idx
        sub = []
        for v, n in bound:
          for i, t in zip(idx, tgt):
            e = _solve_linear(t, iz(i), v)
            if e is not None:
              sub.append((v, e, n)); break
          else:
            raise Unsupported('scatter overwrite with symbolic indices')
        m = [(v, e) for v, e, n in sub]
        c = z3.And(z3.substitute(g, *m), *[z3.And(e >= 0, e < iz(n)) for v, e, n in sub])
        return ite(c, upd.at(*[z3.substitute(iz(v), *m) for v in vs]), x.at(*idx), x.kind)
      return ite(g, upd.at(*vs), x.at(*idx), x.kind)
    return Arr(x.shape, x.kind, fn)

  def p_scatter_add(self, eqn, x, ind, upd):
    if x.kind != 'f':
      raise Unsupported('integer scatter-add')
    return self._scatter(eqn, x, ind, upd, True)

  def p_scatter(self, eqn, x, ind, upd):
    return self._scatter(eqn, x, ind, upd, False)

  # ---- calls
  def _call(self, closed, ins):
    return self.eval(closed.jaxpr, [self.lift(c) for c in closed.consts], ins)

  def p_pjit(self, eqn, *ins):
    name = eqn.params.get('name', '')
    h = self.opaque.get('pjit:' + name)
    if h:
      return h(self, eqn, ins)
    return self._call(eqn.params['jaxpr'], list(ins))
  p_jit = p_pjit

  def p_closed_call(self, eqn, *ins):
    return self._call(eqn.params['call_jaxpr'], list(ins))
  p_core_call = p_remat = p_checkpoint = p_closed_call

  def p_custom_jvp_call(self, eqn, *ins):
    return self._call(eqn.params['call_jaxpr'], list(ins))

  def p_custom_vjp_call(self, eqn, *ins):
    cj = eqn.params.get('call_jaxpr') or eqn.params.get('fun_jaxpr')
    return self._call(cj, list(ins))
  p_custom_vjp_call_jaxpr = p_custom_vjp_call

  def p_custom_vmap_call(self, eqn, *ins):
    raise Unsupported('custom_vmap_call reached: q-function body evaluated unbatched')

  def p_cond(self, eqn, which, *ins):
    brs = eqn.params['branches']
    outs = [self._call(b, list(ins)) for b in brs]
    w = which.at()
    if which.kind == 'b':
      w = z3.If(w, z3.IntVal(1), z3.IntVal(0))
    ws = z3.simplify(w)
    if z3.is_int_value(ws):
      return outs[min(max(ws.as_long(), 0), len(outs) - 1)]
    res = []
    for k in range(len(outs[0])):
      xs = [o[k] for o in outs]

      def fn(*idx, xs=xs):
        out = xs[-1].at(*idx)
        for j in range(len(xs) - 2, -1, -1):
          out = ite(w == j if j else w <= 0, xs[j].at(*idx), out, xs[0].kind)
        return out
      res.append(Arr(xs[0].shape, xs[0].kind, fn))
    return res

  # collectives over a named axis: values carry a leading ghost axis handled by the caller
  def p_psum(self, eqn, *ins):
    axes = eqn.params['axes']
    if not all(isinstance(a, int) for a in axes) or eqn.params.get('axis_index_groups') is not None:
      raise Unsupported('psum outside the device-indexed semantics')
    outs = []
    for x, ov in zip(ins, eqn.outvars):
      if x.kind != 'f':
        raise Unsupported('psum of integers')

      def fn(*idx, x=x):
        bound, src, it = [], [], iter(idx)
        for k, n in enumerate(x.shape):
          if k in axes:
            v = fresh('s'); bound.append((v, n)); src.append(v)
          else:
            src.append(next(it))
        return sum_over(bound, x.at(*src))
      outs.append(Arr(self.shape(ov.aval), 'f', fn))
    return outs


def memo(a):
  return a


def ite(c, x, y, kind):
  if isinstance(c, bool):
    return x if c else y
  c = z3.simplify(c)
  if z3.is_true(c):
    return x
  if z3.is_false(c):
    return y
  if kind == 'f':
    return x.guard(c) + y.guard(z3.Not(c))
  return z3.If(c, x, y)


def recip(y):
  c = y.as_const()
  if c is not None:
    if c == 0:
      raise Failed('division by the constant zero')
    return Poly.const(1 / c)
  if len(y.ms) == 1 and not y.ms[0].bound and not y.ms[0].guards:
    m = y.ms[0]
    out = Poly.const(1 / m.c)
    for a in m.atoms:
      if a.kind == 'fn' and a.name == 'recip':
        out = out * a.args[0]
      else:
        out = out * atom('fn', 'recip', (), (Poly([Mono(Fraction(1), atoms=[a])]),))
    return out
  return atom('fn', 'recip', (), (y,))


def _find_ite(e):
  todo, seen = [e], set()
  while todo:
    x = todo.pop()
    if x.get_id() in seen:
      continue
    seen.add(x.get_id())
    if z3.is_app_of(x, z3.Z3_OP_ITE):
      return x
    todo.extend(x.children())
  return None


def _split_const_ite(v, depth):
  """real value of an integer term that is constant under every combination of its ITE conditions"""
  v = z3.simplify(v)
  if z3.is_int_value(v):
    return Poly.const(v.as_long())
  if depth == 0:
    return None
  t = _find_ite(v)
  if t is None:
    return None
  c = t.children()[0]
  a = _split_const_ite(z3.substitute(v, (c, z3.BoolVal(True))), depth - 1)
  if a is None:
    return None
  b = _split_const_ite(z3.substitute(v, (c, z3.BoolVal(False))), depth - 1)
  if b is None:
    return None
  return ite(c, a, b, 'f')


def convert(x, k):
  if k == 'f' and x.kind == 'b':
    return Arr(x.shape, 'f', lambda *i: Poly.const(1).guard(x.at(*i)))
  if k == 'i' and x.kind == 'b':
    return Arr(x.shape, 'i', lambda *i: z3.If(x.at(*i), z3.IntVal(1), z3.IntVal(0)))
  if k == 'f' and x.kind == 'i':
    def fn(*i):
      v = z3.simplify(x.at(*i))
      if z3.is_int_value(v):
        return Poly.const(v.as_long())
      r = _split_const_ite(v, 6)
      if r is not None:
        return r
      return atom('int', 'int2real', (v,))
    return Arr(x.shape, 'f', fn)
  if k == 'b' and x.kind == 'i':
    return Arr(x.shape, 'b', lambda *i: x.at(*i) != 0)
  if k == 'x':
    raise Unsupported('complex dtype')
  raise Unsupported(f'conversion {x.kind}->{k}')


def _prod(xs):
  r = 1
  for x in xs:
    r = r * x
  return r


def _same(a, b):
  if is_sym(a) or is_sym(b):
    return valid([], iz(a) == iz(b), 2000)
  return int(a) == int(b)


def reshape(x, shp):
  """Row-major reshape; groups dimensions into blocks of equal product."""
  src = [k for k, n in enumerate(x.shape) if not (not is_sym(n) and int(n) == 1)]
  dst = [k for k, n in enumerate(shp) if not (not is_sym(n) and int(n) == 1)]
  blocks = []
  i = j = 0
  while i < len(src) or j < len(dst):
    si, dj = [], []
    if i < len(src):
      si.append(src[i]); i += 1
    if j < len(dst):
      dj.append(dst[j]); j += 1
    def P(ix, s): return _prod([s[k] for k in ix])
    guard = 0
    while not _same(P(si, x.shape), P(dj, shp)):
      guard += 1
      if guard > 12:
        raise Unsupported(f'reshape {x.shape}->{shp}')
      a, b = P(si, x.shape), P(dj, shp)
      grow_src = None
      if not is_sym(a) and not is_sym(b):
        grow_src = a < b
      else:
        grow_src = len(si) <= len(dj) and i < len(src)
        if is_sym(a) and is_sym(b):
          # decide by trying divisibility: prefer side with fewer dims
          grow_src = (i < len(src)) and (len(src) - i >= len(dst) - j)
      if grow_src and i < len(src):
        si.append(src[i]); i += 1
      elif j < len(dst):
        dj.append(dst[j]); j += 1
      elif i < len(src):
        si.append(src[i]); i += 1
      else:
        raise Unsupported(f'reshape {x.shape}->{shp}')
    blocks.append((si, dj))

  def fn(*idx):
    out = [z3.IntVal(0)] * len(x.shape)
    for si, dj in blocks:
      if len(si) == 1 and len(dj) == 1:
        out[si[0]] = iz(idx[dj[0]])
        continue
      lin = z3.IntVal(0)
      for d in dj:
        lin = lin * iz(shp[d]) + iz(idx[d])
      rem = lin
      for pos in range(len(si) - 1, -1, -1):
        n = iz(x.shape[si[pos]])
        if pos == 0:
          out[si[pos]] = rem
        else:
          out[si[pos]] = rem % n
          rem = rem / n
    return x.at(*[z3.simplify(o) for o in out])
  return Arr(shp, x.kind, fn)


def parse_dim(s, env):
  import re
  # names like "n", products "n*m", sums, floordiv(a,b), mod(a,b)
  expr = s.replace('^', '**')
  ns = {k: v for k, v in env.items()}
  ns['floordiv'] = lambda a, b: iz(a) / iz(b)
  ns['mod'] = lambda a, b: iz(a) % iz(b)
  ns['max'] = lambda a, b: z3.If(iz(a) >= iz(b), iz(a), iz(b))
  ns['min'] = lambda a, b: z3.If(iz(a) <= iz(b), iz(a), iz(b))
  try:
    return eval(expr, {'__builtins__': {}}, ns)
  except Exception as e:
    raise Unsupported(f'dimension {s}: {e}')

"""C18: distributed compilation equals applying the function shard by shard."""
LEVEL = 'proof'
NOTE = ('vf/bindvc.py executes the Python source of jit_distributed on a symbolic list of parameters (any number, names, kinds, defaults), '
        'symbolic argument values and a symbolic device, for two calls of the compiled function in a row; the contract says which value '
        'every parameter has inside the function on that device. shard_map, vmap, jit and inspect are contracts. Runtime contracts run '
        'the compiled function on the real jax, exhaustively over signatures and call styles up to three parameters, on 1, 2, 3 and 5 '
        'devices, with opaque letters as data.')
TECHNIQUE = ('verification conditions from the Python source for every signature, arguments and device (vf/bindvc.py, z3); runtime contracts '
             'exhaustive over signatures and call styles up to three parameters')

import inspect, itertools
import numpy as np
from vf.core import Failed, Unsupported

F = ['jit_distributed']
P = inspect.Parameter
KINDS = [P.POSITIONAL_OR_KEYWORD, P.VAR_POSITIONAL, P.KEYWORD_ONLY, P.VAR_KEYWORD, P.POSITIONAL_ONLY]


def signatures(top):
  """(kind, default?) sequences that Python accepts"""
  out = []
  for m in range(top + 1):
    for ks in itertools.product([P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD, P.VAR_POSITIONAL, P.KEYWORD_ONLY, P.VAR_KEYWORD], repeat=m):
      if list(ks) != sorted(ks) or ks.count(P.VAR_POSITIONAL) > 1 or ks.count(P.VAR_KEYWORD) > 1:
        continue
      out.append(ks)
  return out


def make(ks, static, defaults, spy):
  """a function with the given parameters; it records its static arguments and moves its arrays"""
  import jax, jax.numpy as jnp
  from jax import lax
  names = [f'{"s" if j in static else "x"}{j}' for j in range(len(ks))]
  params, parts, star = [], [], False
  for j, (k, nm) in enumerate(zip(ks, names)):
    d = defaults.get(j, P.empty)
    params.append(P(nm, k, default=d))
  sig = inspect.Signature(params)
  ns = {}
  body = 'return _impl(dict(' + ', '.join(f'{n}={n}' for n in names) + '))'
  dflt = {f'd{j}': defaults[j] for j in defaults}
  pieces, seen_star = [], False
  for j, (k, nm) in enumerate(zip(ks, names)):
    t = nm + (f'=d{j}' if j in defaults else '')
    if k == P.VAR_POSITIONAL:
      pieces.append('*' + nm)
      seen_star = True
    elif k == P.VAR_KEYWORD:
      pieces.append('**' + nm)
    elif k == P.KEYWORD_ONLY:
      if not seen_star:
        pieces.append('*')
        seen_star = True
      pieces.append(t)
    else:
      pieces.append(t)
      if k == P.POSITIONAL_ONLY and (j + 1 == len(ks) or ks[j + 1] != P.POSITIONAL_ONLY):
        pieces.append('/')

  def impl(b):
    spy.append({n: v for n, v in b.items() if n[0] == 's'})
    leaves = [l for n, v in sorted(b.items()) if n[0] == 'x' for l in jax.tree_util.tree_leaves(v)]
    i = lax.axis_index('dev')
    everyone = lax.all_gather(i, 'dev')
    n = lax.psum(1, 'dev')
    out = dict(idx=i, all=everyone, shape=[jnp.asarray(l.shape + (0,), jnp.int32) for l in leaves],
               moved=[lax.ppermute(l, 'dev', [(d, (d + 1) % n) for d in range(n)]) for l in leaves],
               args={k: v for k, v in b.items() if k[0] == 'x'}, none=None,
               num=jnp.asarray([v if isinstance(v, int) else len(str(v)) for n, v in sorted(b.items()) if n[0] == 's'] + [0], jnp.int32))
    return out
  ns.update(dflt, _impl=impl)
  exec(f'def f({", ".join(pieces)}):\n  {body}', ns)
  return ns['f'], names


def calls(ks, static, defaults, n, letters, rich):
  """the calling styles: (args, kwargs) with arrays or static values"""
  def value(j, k=None):
    if j in static:
      return [7, 'mode', (1, 2)][j % 3]
    a = letters(n, [(), (2,), (3, 1)][j % 3])
    if rich and j == 0:
      return dict(p=a, q=[letters(n, (2,)), None])
    return a
  out = []
  # number of leading parameters passed by position
  posable = [j for j, k in enumerate(ks) if k in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD)]
  vp = [j for j, k in enumerate(ks) if k == P.VAR_POSITIONAL]
  vk = [j for j, k in enumerate(ks) if k == P.VAR_KEYWORD]
  ko = [j for j, k in enumerate(ks) if k == P.KEYWORD_ONLY]
  po = [j for j in posable if ks[j] == P.POSITIONAL_ONLY]
  for npos in range(len(po), len(posable) + 1):
    for omit in ([False, True] if defaults else [False]):
      args = [value(j) for j in posable[:npos] if not (omit and j in defaults and j == posable[:npos][-1])]
      if len(args) < len(po) and not (omit and po and po[-1] in defaults):
        continue
      rest = posable[npos:] + ko
      kw = {f'{"s" if j in static else "x"}{j}': value(j) for j in rest if not (omit and j in defaults)}
      if vp and npos == len(posable) and len(args) == npos:
        args = args + [value(vp[0]) for _ in range(2)]
      if vk:
        kw.update(za=value(vk[0]), zb=value(vk[0]))
      c = (tuple(args), dict(reversed(list(kw.items()))))
      if not any(same_form(c, q) for q in out):
        out.append(c)
  return out


def same_form(a, b):
  return len(a[0]) == len(b[0]) and list(a[1]) == list(b[1])


def one(ks, static, explicit, defaults, n, call, counter):
  import jax
  from jax import sharding
  from swirl_fem.communication.jit_distributed import jit_distributed
  spy = []
  f, names = make(ks, static, defaults, spy)
  mesh = sharding.Mesh(np.array(jax.devices()[:n]), ('dev',))
  kw = dict(static_argnames=tuple(names[j] for j in static)) if explicit else {}
  args, kws = call
  desc = dict(signature=str(inspect.signature(f)), static_argnames=kw.get('static_argnames', 'default'), devices=n,
              positional=len(args), keywords=list(kws))
  try:
    out = jit_distributed(f, mesh, 'dev', **kw)(*args, **kws)
    out = jax.tree_util.tree_map(np.asarray, out)
  except Exception as e:
    raise Failed(f'{type(e).__name__}: {e}'[:600] + f' for {desc}', model=desc)
  counter[0] += 1
  b = inspect.signature(f).bind(*args, **kws)
  b.apply_defaults()
  want_static = {k: v for k, v in b.arguments.items() if k[0] == 's'}
  if not spy or any(type(s.get(k)) is not type(v) or s[k] != v for s in spy for k, v in want_static.items()):
    raise Failed(f'static arguments {spy} instead of {want_static} for {desc}', model=desc)
  xs = {k: v for k, v in b.arguments.items() if k[0] == 'x'}
  leaves = [l for k in sorted(xs) for l in jax.tree_util.tree_leaves(xs[k])]
  want = dict(idx=np.arange(n), all=np.broadcast_to(np.arange(n), (n, n)),
              shape=[np.broadcast_to(np.array(l.shape[1:] + (0,)), (n, l.ndim)) for l in leaves],
              moved=[np.roll(l, 1, axis=0) for l in leaves], args=xs, none=None,
              num=np.broadcast_to([v if isinstance(v, int) else len(str(v)) for _, v in sorted(want_static.items())] + [0],
                                  (n, len(want_static) + 1)))
  ga, ta = jax.tree_util.tree_flatten(out)
  gb, tb = jax.tree_util.tree_flatten(want)
  if ta != tb:
    raise Failed(f'result structure {ta} instead of {tb} for {desc}', model=desc)
  for a, w in zip(ga, gb):
    if a.shape != np.shape(w) or not np.array_equal(a, w):
      raise Failed(f'result {np.asarray(a).tolist()} instead of {np.asarray(w).tolist()} for {desc}'[:1500], model=desc)


def prove(chk):
  from vf import bindvc, nodalvc
  chk.trust('z3', 'jax compilation', 'distinct letters as data in the runtime contracts: the functions only move their arguments')
  chk.assume('array arguments and results are leaves with the axis as leading dimension, of the size of the axis; static values are '
             'hashable; static names are names of parameters',
             'contracts of inspect.Signature.bind, BoundArguments (bind, apply_defaults, args, kwargs), jax shard_map, vmap, jit (vf/bindvc.py); '
             'a tree without leaves is its own slice on every device')

  def small():
    for _, f in enumerated(chk):
      f()
    return 'every call of the runtime contracts'
  B = 'signatures with up to three parameters, 1 to 5 devices'
  for explicit, nm in ((False, 'keyword-only parameters static'), (True, 'static parameters named')):
    chk.oblige(f'every parameter has its value on every device: {nm}', lambda explicit=explicit: bindvc.contract(explicit), 'z3', F,
               bounded=False, stand_in=(B, small))
    chk.canary(f'bindvc: {nm}, static arguments cut into slices', nodalvc.refuted(lambda explicit=explicit: bindvc.contract(explicit, True)), 'z3')


def enumerated(chk):
  top = 3 if not chk.thorough else 4
  devs = [1, 2, 3, 5] if not chk.thorough else [1, 2, 3, 4, 5, 6, 7, 8]
  state = [100]

  def letters(n, shape):
    size = n * int(np.prod(shape, dtype=int))
    a = np.arange(state[0], state[0] + size, dtype=np.int64).reshape((n,) + shape)
    state[0] += size
    return a
  sigs = signatures(top)
  groups = {}
  rng = np.random.RandomState(5)
  for ks in sigs:
    m = len(ks)
    nameable = [j for j, k in enumerate(ks) if k in (P.POSITIONAL_OR_KEYWORD, P.KEYWORD_ONLY)]
    opts = [(tuple(j for j, k in enumerate(ks) if k == P.KEYWORD_ONLY), False)]
    for r in range(len(nameable) + 1):
      opts += [(c, True) for c in itertools.combinations(nameable, r)]
    for static, explicit in opts:
      # defaults of static arguments (a suffix of the positional ones, any keyword-only ones), and None for arrays
      for with_default in (False, True):
        defaults = {}
        if with_default:
          ok = True
          for j in reversed([j for j, k in enumerate(ks) if k in (P.POSITIONAL_ONLY, P.POSITIONAL_OR_KEYWORD)]):
            if ok and j in static:
              defaults[j] = 13 + j
            elif ok and not any(q in static for q in range(j)):
              break
            else:
              break
          for j, k in enumerate(ks):
            if k == P.KEYWORD_ONLY and j in static:
              defaults[j] = 'dflt'
          if not defaults:
            continue
        kindname = 'with default' if with_default else ('explicit' if explicit else 'keyword-only') + ' static'
        if not static:
          kindname = 'no static'
        groups.setdefault(kindname, []).append((ks, static, explicit, defaults))
  keep = chk.n(0.5, 1.0)

  def go(items, nm):
    def f():
      counter = [0]
      for t, (ks, static, explicit, defaults) in enumerate(items):
        full = len(ks) <= 2
        for c, call in enumerate(calls(ks, static, defaults, 2, letters, False)):
          if not full and rng.rand() > keep:
            continue
          n = devs[(t + c) % len(devs)]
          state[0] = 100
          cs = calls(ks, static, defaults, n, letters, rich=(t + c) % 2 == 0)
          one(ks, static, explicit, defaults, n, cs[c], counter)
      return f'{counter[0]} calls of {len(items)} signatures'
    return f
  return [(nm, go(items, nm)) for nm, items in sorted(groups.items())]


def contracts(chk):
  for nm, f in enumerated(chk):
    def run(f=f):
      try:
        f()
      except Failed as e:
        return dict(message=str(e), call=e.model)
    chk.case(f'shard by shard, {nm}', run, 'signatures and call styles of enumerated(); the failing one is named in the breach')
  import jax, jax.numpy as jnp
  from jax import lax, sharding
  from swirl_fem.communication.jit_distributed import jit_distributed
  rng = np.random.RandomState(chk.seed)
  for n in chk.n([1, 4, 7], [1, 2, 3, 4, 5, 6, 7, 8]):
    mesh = sharding.Mesh(np.array(jax.devices()[:n]), ('i',))
    x, y = rng.rand(n, 3), rng.rand(n, 2, 3)

    def f(x, y, *, k=2, name='a'):
      s = lax.psum(x, 'i')
      return dict(a=x @ y.T - k * s[:2], b=(lax.axis_index('i') + len(name), jnp.cumsum(lax.all_gather(x, 'i'), 0)))
    for kw in ({}, dict(k=3), dict(name='abc', k=-1)):
      def run(kw=kw):
        out = jit_distributed(f, mesh, 'i')(x, y, **kw)
        k, nm = kw.get('k', 2), kw.get('name', 'a')
        if not np.allclose(out['a'], np.einsum('dj,dij->di', x, y) - k * x.sum(0)[:2]):
          return 'values'
        if np.asarray(out['b'][0]).tolist() != [i + len(nm) for i in range(n)]:
          return 'index'
        if not np.allclose(out['b'][1], np.broadcast_to(np.cumsum(x, 0), (n, n, 3))):
          return 'gather order'
      chk.case('distributed function', run, dict(devices=n, static=kw))

  # one compiled function called again and again: every call is on its own (nothing is kept from an earlier one)
  def history(n, order):
    def f():
      mesh = sharding.Mesh(np.array(jax.devices()[:n]), ('i',))
      g = jit_distributed(lambda x, w=None, *, k=1, mode='a': dict(y=x * k + len(mode) + (0 if w is None else w), i=lax.axis_index('i')),
                          mesh, 'i')
      h = jit_distributed(lambda x, k=2: x * k, mesh, 'i', static_argnames='k')
      for t in order:
        a = rng.randint(0, 9, (n,) + [(), (2,), (1, 3)][t % 3])
        kw = [{}, dict(k=5), dict(mode='bcd'), dict(k=0, mode='zz'), dict(k=True), dict(k=1.5)][t % 6]
        out = g(a, a + 1, **kw) if t % 2 else g(a, **kw)
        want = a * kw.get('k', 1) + len(kw.get('mode', 'a')) + (a + 1 if t % 2 else 0)
        if not np.array_equal(out['y'], want) or np.asarray(out['i']).tolist() != list(range(n)):
          return f'call {t} with {kw}: {np.asarray(out["y"]).tolist()} instead of {want.tolist()}'
        hk = dict(k=3) if t % 4 == 1 else {}
        if not np.array_equal(h(a, **hk), a * hk.get('k', 2)):
          return f'call {t} with {hk}'
    return f
  for n in (1, 3):
    for order in ([1, 0, 6, 2, 7, 3, 0, 5, 1, 4, 12], list(rng.randint(0, 18, 12))):
      chk.case('several calls of one compiled function', history(n, [int(t) for t in order]), dict(devices=n, calls=[int(t) for t in order]))

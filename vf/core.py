"""Check runner: obligations, runtime contracts, replay files, evidence.

A check registers
  * proof obligations (generated from /repo's current source on this run),
  * runtime-contract cases (the real code executed under its contract), used to
    find a concrete failing input for a failed obligation, and as a cross-check
    of the trusted base.
Outcome: exit 0 / exit 1 + VIOLATION lines / any other exit = machinery error.
"""
import hashlib, json, os, sys, time, traceback, itertools

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Unsupported(Exception):
  """The source left the subset the verification-condition generator accepts."""


class Failed(Exception):
  """An obligation was generated and not discharged."""

  def __init__(self, msg, model=None):
    super().__init__(msg)
    self.model = model


def locate(owner, name, params):
  """Name of a private function of a module or class: `name`, or, after a renaming, the only
  private function with the parameters `params`."""
  import inspect
  if hasattr(owner, name):
    return name
  hits = []
  for k, f in vars(owner).items():
    f = getattr(f, '__wrapped__', getattr(f, '__func__', f))
    if k.startswith('_') and not k.startswith('__') and inspect.isfunction(f):
      if tuple(inspect.signature(f).parameters) == tuple(params):
        hits.append(k)
  if len(hits) != 1:
    raise Unsupported(f'{getattr(owner, "__name__", owner)}.{name} does not exist')
  return hits[0]


class time_limit:
  """Raises Unsupported in the main thread after the given number of seconds."""

  def __init__(self, seconds):
    self.s = seconds

  def __enter__(self):
    import signal, threading
    self.on = threading.current_thread() is threading.main_thread()
    if self.on:
      def h(*a):
        raise Unsupported(f'no proof within {self.s:.0f} s')
      self.old = signal.signal(signal.SIGALRM, h)
      signal.setitimer(signal.ITIMER_REAL, self.s)

  def __exit__(self, *a):
    import signal
    if self.on:
      signal.setitimer(signal.ITIMER_REAL, 0)
      signal.signal(signal.SIGALRM, self.old)
    return False


def jsonable(x, depth=0):
  import numpy as np
  if depth > 8:
    return repr(x)[:500]
  if isinstance(x, dict):
    return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
  if isinstance(x, (list, tuple, set, frozenset)):
    return [jsonable(v, depth + 1) for v in x]
  if isinstance(x, (str, int, float, bool)) or x is None:
    return x
  if isinstance(x, np.generic):
    return jsonable(x.item(), depth + 1)
  if hasattr(x, 'shape') and hasattr(x, 'dtype'):
    try:
      a = np.asarray(x)
      if a.dtype.kind not in 'biuf':
        a = np.vectorize(str, otypes=[object])(a)
      if a.size > 4000:
        return {'shape': list(a.shape), 'dtype': str(a.dtype), 'head': a.ravel()[:200].tolist()}
      return {'shape': list(a.shape), 'dtype': str(a.dtype), 'data': a.tolist()}
    except Exception:
      return repr(x)[:500]
  return repr(x)[:2000]


class Check:

  def __init__(self, pid, tier=None, seed=None):
    self.pid = pid
    self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
    self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
    self.t0 = time.time()
    self.obls = []            # dicts
    self.assumptions = []
    self.trusted = []
    self.functions = []       # functions under contract
    self.violations = []      # (what, replay_path, has_input)
    self.cases = 0
    self.searched = False       # the runtime contracts were repeated over more inputs
    self.case_kinds = {}
    self.samples = []
    self.known_hits = []
    self.bounded = []
    self.extra = {}
    self.known = load_known(pid)
    self.level = 'proof'
    self.explanation = None

  # ---------------------------------------------------------------- proofs
  @property
  def thorough(self):
    return self.tier == 'thorough'

  def n(self, quick, thorough):
    return thorough if self.thorough else quick

  def function(self, *names):
    for n in names:
      if n not in self.functions:
        self.functions.append(n)

  def assume(self, *texts):
    for t in texts:
      if t not in self.assumptions:
        self.assumptions.append(t)

  def trust(self, *texts):
    for t in texts:
      if t not in self.trusted:
        self.trusted.append(t)

  def oblige(self, name, thunk, backend='z3', functions=(), bounded=None, stand_in=None):
    """Generates and discharges one obligation (thunk raises Failed/Unsupported).

    stand_in: (stated bound, thunk): a bounded check of the same functions, run only when their source has left the subset
    the generator accepts; the obligation is then reported as bounded, never as discharged.
    """
    t = time.time()
    rec = dict(name=name, backend=backend)
    if bounded:
      rec['bounded'] = bounded
      if bounded not in self.bounded:
        self.bounded.append(bounded)
    try:
      with time_limit(min(float(os.environ.get('VF_OBL_S', 150 if not self.thorough else 600)),
                          max(5., (550 if not self.thorough else 5000) - (t - self.t0)))):
        detail = thunk()
      rec['status'] = 'discharged'
      if isinstance(detail, (str, int, dict, list)):
        rec['detail'] = detail
    except Failed as e:
      rec['status'] = 'failed'
      rec['detail'] = str(e)[:4000]
      rec['model'] = jsonable(e.model)
      if bounded and e.model is not None:   # an enumerated input of the real code fails
        self.report(name, str(e)[:4000], e.model)
    except Unsupported as e:
      rec['status'] = 'unsupported'
      rec['detail'] = str(e)[:2000]
      rec['trace'] = traceback.format_exc()[-3000:]
    except Exception as e:  # extraction met code it cannot run symbolically
      rec['status'] = 'unsupported'
      rec['detail'] = f'{type(e).__name__}: {e}'[:2000]
      rec['trace'] = traceback.format_exc()[-3000:]
    if rec['status'] == 'failed' and stand_in and not any(v[2] for v in self.violations):
      # refuted: the enumeration of the same contract looks for an input that shows it
      try:
        with time_limit(120):
          stand_in[1]()
      except Failed as e:
        if e.model is not None:
          self.report(name, str(e)[:4000], e.model)
      except Exception:
        pass
    if rec['status'] == 'unsupported' and stand_in:
      rec2 = dict(rec)
      before = len(self.obls)
      why = rec['detail']
      ok = self.oblige(name + ' (bounded stand-in)', stand_in[1], 'real code executed', functions, bounded=stand_in[0])
      rec = self.obls.pop()
      rec['not_proved_because'] = why
      if not ok and rec['status'] == 'unsupported':
        rec['trace'] = str(rec2.get('trace')) + str(rec.get('trace'))
    rec['time_s'] = round(time.time() - t, 3)
    self.function(*functions)
    self.obls.append(rec)
    if os.environ.get('VF_DEBUG'):
      print(f"  [{rec['status']}] {name} {rec['time_s']}s {str(rec.get('detail',''))[:500]}",
            file=sys.stderr)
      if rec['status'] == 'unsupported' and not getattr(self, '_traced', False):
        self._traced = True
        print(rec.get('trace')[-1500:], file=sys.stderr)
    return rec['status'] == 'discharged'

  def canary(self, name, thunk, backend='z3'):
    """An obligation that must NOT be dischargeable: guards against vacuity."""
    def f():
      try:
        thunk()
      except Failed:
        return 'refuted as required'
      raise Failed('vacuity: a deliberately false obligation was discharged')
    return self.oblige('canary:' + name, f, backend)

  def deep(self, contracts):
    """bounded stand-in: the runtime contracts at their thorough size, once; fails if one of them is breached"""
    if not hasattr(self, '_deep'):
      n, tier, self.tier = len(self.violations), self.tier, 'thorough'
      try:
        contracts(self)
      finally:
        self.tier = tier
      self._deep = len(self.violations) - n
    if self._deep:
      raise Failed('runtime contracts breached')
    return 'runtime contracts at thorough size'

  # ---------------------------------------------------------------- runtime contracts
  def case(self, kind, fn, inputs=None, sample=None, where=None):
    """Runs one runtime-contract case on the real code.

    fn() returns None/True when the contract held, or a string/dict describing
    the breach. Exceptions out of the code under test are breaches.
    """
    self.cases += 1
    self.case_kinds[kind] = self.case_kinds.get(kind, 0) + 1
    if len(self.samples) < 6 and self.case_kinds[kind] == 1:
      self.samples.append({'kind': kind, 'input': jsonable(inputs if sample is None else sample)})
    try:
      r = fn()
    except KeyboardInterrupt:
      raise
    except Harness as e:
      raise
    except Unsupported:      # the function this case calls directly does not exist in this form
      return True
    except Exception as e:
      r = {'exception': f'{type(e).__name__}: {e}'[:1500],
           'traceback': traceback.format_exc()[-3000:]}
    if r is None or r is True:
      return True
    if r is False:
      r = 'contract evaluated to false'
    self.report(kind, r, inputs)
    return False

  def report(self, kind, what, inputs):
    key = f'{kind}'
    for k in self.known:
      if k.get('match') and k['match'](kind, what, inputs):
        if k['line'] not in self.known_hits:
          self.known_hits.append(k['line'])
        return
    if sum(1 for v in self.violations if v[2]) >= 5:
      return
    path = self.write_replay(kind, what, inputs)
    self.violations.append((key, path, True))
    if os.environ.get('VF_DEBUG'):
      print('  VIOL', kind, str(jsonable(what))[:800], file=sys.stderr)

  def write_replay(self, kind, what, inputs):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    body = dict(property=self.pid, kind=kind, what=jsonable(what), input=jsonable(inputs),
                seed=self.seed, tier=self.tier,
                rerun=f'cd /verif && VERIF_SEED={self.seed} ./check.sh {self.pid} {self.tier}')
    h = hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{self.pid}-{h}.json')
    with open(path, 'w') as f:
      json.dump(body, f, indent=1)
    return path

  # ---------------------------------------------------------------- finish
  def drop_idle_canaries(self):
    """canaries of proofs that were not attempted (a stand-in took their place) have nothing to guard"""
    if any('not_proved_because' in o for o in self.obls):
      self.obls = [o for o in self.obls if not (o['name'].startswith('canary:') and o['status'] == 'unsupported')]

  def finish(self):
    self.drop_idle_canaries()
    bad = [o for o in self.obls if o['status'] != 'discharged']
    n_obl = len(self.obls)
    n_dis = n_obl - len(bad)
    with_input = [v for v in self.violations if v[2]]
    lines = []
    if n_obl == 0:
      print(f'ERROR: {self.pid}: no obligations generated', file=sys.stderr)
      rc = 3
    else:
      rc = 0
    for kind, path, _ in with_input[:5]:
      lines.append(f'VIOLATION property={self.pid} replay={path}')
    out_of_reach = bool(bad) and all(o['status'] == 'unsupported' for o in bad)
    if out_of_reach and not with_input and self.searched:
      # the generator does not accept this source: nothing was refuted, and the runtime contracts, repeated over more inputs,
      # held. They stand in for the proof as a bounded check of the same functions; this run proves nothing about them.
      self.level = 'other'
      bound = f'runtime contracts, {self.cases} evaluations'
      self.bounded.append(bound)
      for o in bad:
        o['bounded'], o['not_proved_because'] = bound, o.get('detail')
      print(f'UNDECIDED-BY-VERIFIER property={self.pid}: {len(bad)} obligations outside the accepted subset '
            f'({bad[0]["name"]}: {str(bad[0].get("detail"))[:160]!r}); bounded stand-in held ({bound})')
    elif bad and not with_input:
      path = self.write_replay('undischarged-obligation',
                               [{k: o.get(k) for k in ('name', 'status', 'backend', 'detail', 'model', 'trace')}
                                for o in bad], None)
      lines.append(f'VIOLATION property={self.pid} replay={path} no-failing-input-found')
    if lines:
      rc = 1
    proved = [o for o in self.obls if not o.get('bounded')]
    cov = dict(
        obligations=len(proved), discharged=sum(o['status'] == 'discharged' for o in proved),
        checker_cmd=f'./check.sh {self.pid} {self.tier}',
        trusted_base=self.trusted or ['z3', 'this generator'],
        functions_under_contract=self.functions,
        bounded_checks=n_obl - len(proved),
        bounded_checks_passed=sum(o['status'] == 'discharged' for o in self.obls if o.get('bounded')),
        bounded_stand_ins=self.bounded,
        by_backend={b: sum(1 for o in self.obls if o['backend'] == b)
                    for b in sorted({o['backend'] for o in self.obls})},
        solver_time_s=round(sum(o['time_s'] for o in self.obls), 2),
        obligation_list=[{k: o[k] for k in ('name', 'status', 'backend', 'time_s', 'bounded', 'not_proved_because') if k in o}
                         for o in self.obls],
        explanation=self.explanation or None,
        runtime_contract_evaluations=self.cases,
        runtime_contract_kinds=self.case_kinds,
        samples=self.samples[:6],
    )
    cov.update(self.extra)
    cov = {k: v for k, v in cov.items() if v is not None}
    ev = dict(property=self.pid, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick',
              seed=self.seed, level=self.level, coverage=cov,
              assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
              violations=len(lines))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{self.pid}.json'), 'w') as f:
      json.dump(jsonable(ev), f, indent=1)
    for k in self.known_hits:
      print(f'KNOWN-FINDING: property={self.pid} {k}')
    for l in lines:
      print(l)
    print(f'{self.pid}: {n_dis}/{n_obl} obligations discharged, {self.cases} runtime-contract '
          f'evaluations, {len(lines)} violations, {time.time()-self.t0:.1f}s')
    sys.stdout.flush()
    return rc


class Harness(Exception):
  """An error of the machinery itself."""


def load_known(pid):
  """Known findings are matched by the specific input/call site that fails."""
  path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
  out = []
  if os.path.exists(path):
    for k in json.load(open(path)).get('findings', []):
      if k['property'] != pid or k.get('status') != 'open':
        continue
      kind, needle = k['kind'], k['needle']
      out.append(dict(line=k['what'], match=lambda kd, w, i, kind=kind, needle=needle:
                      kd == kind and needle in json.dumps(jsonable(w))))
  return out

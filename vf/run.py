import importlib, os, sys, time, traceback, warnings
warnings.filterwarnings('ignore')


def main():
  pid = sys.argv[1]
  sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
  from vf.core import Check
  chk = Check(pid)
  import jax
  jax.config.update('jax_enable_x64', True)
  mod = importlib.import_module(f'vf.props.{pid.lower()}')
  if hasattr(mod, 'LEVEL'):
    chk.level = mod.LEVEL
  chk.explanation = getattr(mod, 'NOTE', None)
  phases = [p for p in ('prove', 'contracts') if hasattr(mod, p)]
  if os.environ.get('VF_PHASE'):
    phases = [p for p in phases if p in os.environ['VF_PHASE']]
  for ph in phases:
    t = time.time()
    try:
      getattr(mod, ph)(chk)
    except BaseException as e:
      from vf.core import Harness
      if isinstance(e, (KeyboardInterrupt, SystemExit, Harness)):
        raise
      tb = traceback.format_exc()
      if ph == 'prove':
        def again(e=e):
          raise e
        chk.oblige('generation', again)
      elif '/repo/' in tb:
        chk.report('setup', {'exception': str(e)[:1500], 'traceback': tb[-3000:]}, None)
      else:
        raise
    chk.extra[f'{ph}_wall_s'] = round(time.time() - t, 2)
  # a failed obligation without a concrete witness: search harder before giving up
  chk.drop_idle_canaries()
  bad = [o for o in chk.obls if o['status'] != 'discharged']
  if bad and not chk.violations and hasattr(mod, 'contracts'):
    budget = time.time() + 120
    chk.searched = True
    for k in range(1, 4):
      if chk.violations or time.time() > budget:
        break
      chk.seed += 1000 * k
      mod.contracts(chk)
  rc = chk.finish()
  sys.stdout.flush()
  os._exit(rc)


if __name__ == '__main__':
  try:
    main()
  except SystemExit:
    raise
  except BaseException:
    traceback.print_exc()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(4)

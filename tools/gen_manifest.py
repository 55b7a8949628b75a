"""Writes /verif/MANIFEST.json from the check modules present (no imports)."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
  f = os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')
  if not os.path.exists(f):
    na.append(dict(property=p['id'], reason=NA.get(p['id'], 'Check not built yet.')))
    continue
  ns = {}
  for n in ast.parse(open(f).read()).body:
    if isinstance(n, ast.Assign):
      t = n.targets[0]
      names = [e.id for e in t.elts] if isinstance(t, ast.Tuple) else [getattr(t, 'id', '')]
      if set(names) & {'PROP', 'LEVEL', 'RULE', 'ASSUMPTIONS', 'TECHNIQUE'}:
        vals = n.value.elts if isinstance(t, ast.Tuple) else [n.value]
        for k, v in zip(names, vals):
          ns[k] = ast.literal_eval(v)
  assert ns['PROP'] == p['id'], f
  tech = ns.get('TECHNIQUE') or {
      'model_checking': 'bounded exhaustive exploration of operation sequences on the real code, conformance with a reference model',
      'exploration': 'bounded exhaustive enumeration of an input lattice on the real code against a reference',
      'fault_enumeration': 'exhaustive enumeration of crash points and torn writes on the real code'}[ns['LEVEL']]
  checks.append(dict(property=p['id'], quick_cmd=f"./run_check.sh {p['id']} --tier quick",
                     thorough_cmd=f"./run_check.sh {p['id']} --tier thorough",
                     evidence_file=f"evidence/{p['id']}.json",
                     technique=tech, level=ns['LEVEL'],
                     level_note=ns['RULE'] + ' Assumes: ' + '; '.join(ns['ASSUMPTIONS']) + '.'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='All checks import /repo directly (editable install, no build products) and enumerate a fixed bounded space; VERIF_SEED is only recorded, no check makes random choices.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')

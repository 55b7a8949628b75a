"""Writes DESIGN.md from tools/design/*.md, properties.jsonl and seeded/."""
import json, os, runpy, io, contextlib
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, 'tools', 'design')
b = io.StringIO()
with contextlib.redirect_stdout(b):
  runpy.run_path(os.path.join(D, 'props.py'))
caught = json.load(open(os.path.join(D, 'caught.json')))
t = ['| Bug | Property | Needs | Breaks | Caught by |', '|---|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(R, 'seeded'))):
  m = json.load(open(os.path.join(R, 'seeded', i, 'meta.json')))
  t.append(f"| {i} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(i, '?')} |")
open(os.path.join(R, 'DESIGN.md'), 'w').write(
    open(os.path.join(D, 'head.md')).read() + '\n' + b.getvalue() + '\n' +
    open(os.path.join(D, 'tail.md')).read() + '\n'.join(t) + '\n')

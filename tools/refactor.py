"""Behaviour-preserving edits: python tools/refactor.py [SPEC.py] [id...]

SPEC.py (default: tools/refactorings/*.py) defines EDITS = [dict(id, checks,
edits=[(file, old, new), ...])].  Each is applied to a scratch clone of /repo;
the named quick checks have to stay quiet there.
"""
import glob, importlib.util, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def main():
  specs = [a for a in sys.argv[1:] if a.endswith('.py')] or sorted(
      glob.glob(ROOT + '/tools/refactorings/*.py'))
  only = [a for a in sys.argv[1:] if not a.endswith('.py')]
  top = tempfile.mkdtemp(prefix='refactor')
  tree = top + '/repo'
  subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
  e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MC_EVIDENCE=top + '/ev',
           PYTHONPATH=tree)
  bad = 0
  try:
    for path in specs:
      spec = importlib.util.spec_from_file_location('spec', path)
      m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
      for b in m.EDITS:
        if only and b['id'] not in only: continue
        subprocess.run(['git', '-C', tree, 'checkout', '-q', '--', '.'], check=True)
        ok = True
        for f, old, new in b['edits']:
          p = f'{tree}/balloon_learning_environment/{f}'
          s = open(p).read()
          if s.count(old) != 1:
            print(b['id'], f, 'old text occurs', s.count(old), 'times:', old[:60]); ok = False; break
          s = s.replace(old, new); compile(s, p, 'exec'); open(p, 'w').write(s)
        if not ok: bad += 1; continue
        for c in b['checks'].split(','):
          q = subprocess.run([ROOT + '/run_check.sh', c], cwd=ROOT, env=e,
                             capture_output=True, text=True)
          if q.returncode:
            bad += 1
            lines = [l for l in q.stdout.splitlines() if 'VIOLATION' in l or l.strip().startswith('[')]
            print(b['id'], c, 'ALARM', q.returncode, '\n   '.join(l[:300] for l in lines[:4]), flush=True)
          else:
            print(b['id'], c, 'quiet', flush=True)
  finally:
    shutil.rmtree(top)
  print('alarms:', bad)
  sys.exit(bad > 0)

main()

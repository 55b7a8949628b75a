"""Plants bugs: python tools/plant.py SPEC.py [id...]

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old,
new), ...], demo='python source')].  For each: a scratch copy of /repo gets the
edits, must compile and pass the stable tests, the demo must exit 0 on the
clean copy and non-zero on the edited one; then seeded/<id>/ is written.
Files are relative to balloon_learning_environment/.
"""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# exit 0: the property holds on this history; non-zero: it is broken
export PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''

def env(tree):
  e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
           JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg',
           TF_CPP_MIN_LOG_LEVEL='3',
           PYTHONPATH=f'{tree}:/opt/vp/pytest_plugins')
  return e

def tests(tree):
  w = tempfile.mkdtemp(prefix='plantt')
  e = env(tree)
  e['TEST_TMPDIR'], e['MPLCONFIGDIR'] = w + '/absl', w + '/mpl'
  os.makedirs(w + '/absl'); os.makedirs(w + '/mpl')
  subprocess.run([PY, '-m', 'pytest', '-q', '-n', '6', '--dist', 'loadfile',
    '-p', 'no:cacheprovider', '-p', 'absl_flags', '--timeout=300',
    '--continue-on-collection-errors', '-o', 'python_files=*_test.py', '-o',
    'junit_family=xunit2', f'--junitxml={w}/junit.xml',
    'balloon_learning_environment'], cwd=tree, env=e,
    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
  subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', w + '/out.json',
                  f'junit:{w}/junit.xml'], stdout=subprocess.DEVNULL)
  passed = set(json.load(open(w + '/out.json'))['passed'])
  shutil.rmtree(w)
  return sorted(STABLE - passed)

def main():
  spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
  m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
  only = sys.argv[2:]
  skip_tests = os.environ.get('NOTESTS')
  tree = tempfile.mkdtemp(prefix='plant') + '/repo'
  subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
  subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
  try:
    for b in m.BUGS:
      if only and b['id'] not in only: continue
      subprocess.run(['git', '-C', tree, 'checkout', '-q', '--', '.'], check=True)
      d = tempfile.mkdtemp(prefix='plantd')
      open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
      open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
      def demo():
        return subprocess.run(['bash', d + '/demo.sh'], cwd=tree, env=env(tree),
            capture_output=True, text=True, timeout=300)
      c = demo()
      if c.returncode != 0:
        print(b['id'], 'DEMO FAILS CLEAN', c.stdout[-500:], c.stderr[-1500:]); continue
      ok = True
      for f, old, new in b['edits']:
        p = f'{tree}/balloon_learning_environment/{f}'
        s = open(p).read()
        if s.count(old) != 1:
          print(b['id'], f, 'old text occurs', s.count(old), 'times'); ok = False; break
        s2 = s.replace(old, new); compile(s2, p, 'exec'); open(p, 'w').write(s2)
      if not ok: continue
      r = demo()
      if r.returncode == 0:
        print(b['id'], 'DEMO PASSES WITH BUG', r.stdout[-500:]); continue
      miss = [] if skip_tests else tests(tree)
      if miss:
        print(b['id'], 'STABLE TESTS FAIL', miss[:5]); continue
      diff = subprocess.run(['git', '-C', tree, 'diff'], capture_output=True, text=True).stdout
      out = f'{ROOT}/seeded/{b["id"]}'
      os.makedirs(out, exist_ok=True)
      open(out + '/patch.diff', 'w').write(diff)
      shutil.copy(d + '/demo.sh', out); shutil.copy(d + '/demo.py', out)
      json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                open(out + '/meta.json', 'w'), indent=1)
      open(out + '/meta.json', 'a').write('\n')
      # does the check see it?
      chk = 'n/a'
      if os.path.exists(f'{ROOT}/mc/checks/{b["property"].lower()}.py'):
        e = env(tree); e['MC_EVIDENCE'] = d + '/ev'
        q = subprocess.run([ROOT + '/run_check.sh', b['property']], cwd=ROOT, env=e,
                           capture_output=True, text=True)
        caught = q.returncode == 1 and 'VIOLATION' in q.stdout
        chk = 'CAUGHT' if caught else f'MISSED rc={q.returncode}'
        lines = [l.strip() for l in q.stdout.splitlines() if l.strip().startswith('[')]
        chk += '  ' + (lines[0][:150] if lines else '')
      print(b['id'], b['property'], 'ok demo:', (r.stdout + r.stderr).strip().splitlines()[-1][:90], '|', chk, flush=True)
      shutil.rmtree(d)
  finally:
    shutil.rmtree(os.path.dirname(tree))

if __name__ == "__main__":
  main()

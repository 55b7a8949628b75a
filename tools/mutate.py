"""Mutation triage: python tools/mutate.py FILE CHECK[,CHECK..] [--lines a-b] [--jobs N] [--every k]

Every single-token mutant of a source file (relative to
balloon_learning_environment/) is run against the quick checks named; those
that survive are run against the unit test of the file; the ones that survive
both are printed for reading.  Works in scratch clones under /tmp.
"""
import argparse, ast, os, shutil, signal, subprocess, sys, tempfile, threading, queue
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'),
       ast.Eq: ('==', '!='), ast.NotEq: ('!=', '=='), ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is'),
       ast.In: ('in', 'not in'), ast.NotIn: ('not in', 'in')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'),
       ast.FloorDiv: ('//', '*'), ast.Mod: ('%', '*'), ast.Pow: ('**', '*')}

def mutants(src):
  lines = src.splitlines(keepends=True)
  starts = [0]
  for l in lines: starts.append(starts[-1] + len(l.encode()))
  b = src.encode()
  off = lambda ln, col: starts[ln - 1] + col
  span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
  out = []
  def rep(a, z, new, n, what):
    out.append((n.lineno, what, b[:a] + new.encode() + b[z:]))
  def between(l, r, old, new, n):
    a, z = span(l)[1], span(r)[0]
    seg = b[a:z].decode()
    i = seg.find(old)
    if i >= 0: rep(a, z, seg[:i] + new + seg[i + len(old):], n, f'{old} -> {new}')
  skip = set()
  tree = ast.parse(src)
  for n in ast.walk(tree):
    if isinstance(n, (ast.FunctionDef, ast.arguments)):
      for a in ast.walk(n.returns) if isinstance(n, ast.FunctionDef) and n.returns else []: skip.add(a)
    if isinstance(n, ast.arg) and n.annotation: skip.update(ast.walk(n.annotation))
    if isinstance(n, ast.AnnAssign): skip.update(ast.walk(n.annotation))
    if isinstance(n, ast.Raise): skip.update(ast.walk(n))
    if isinstance(n, ast.Assert) and n.msg: skip.update(ast.walk(n.msg))
    if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('logging.', 'flags.')): skip.update(ast.walk(n))
  for n in ast.walk(tree):
    if n in skip: continue
    if isinstance(n, ast.Compare):
      l = n.left
      for op, r in zip(n.ops, n.comparators):
        if type(op) in CMP: between(l, r, *CMP[type(op)], n)
        l = r
    elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
      between(n.left, n.right, *BIN[type(n.op)], n)
    elif isinstance(n, ast.Constant):
      a, z = span(n)
      v = n.value
      if isinstance(v, bool): rep(a, z, str(not v), n, f'{v} -> {not v}')
      elif isinstance(v, int):
        rep(a, z, str(v + 1), n, f'{v} -> {v+1}')
        if v > 1: rep(a, z, str(v - 1), n, f'{v} -> {v-1}')
      elif isinstance(v, float):
        rep(a, z, repr(v * 1.02 if v else 0.01), n, f'{v} -> *1.02')
    elif isinstance(n, ast.BoolOp):
      o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
      for l, r in zip(n.values, n.values[1:]): between(l, r, o, w, n)
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
      a, z = span(n); c, d = span(n.operand)
      rep(a, z, b[c:d].decode(), n, 'drop ' + ('-' if isinstance(n.op, ast.USub) else 'not'))
    elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
      a, z = span(n.test)
      rep(a, z, 'not (' + b[a:z].decode() + ')', n, 'negate condition')
      if isinstance(n, ast.If): rep(a, z, 'False', n, 'condition -> False')
    elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
      a, z = span(n); rep(a, z, 'pass', n, 'drop call ' + b[a:z].decode()[:50])
    elif isinstance(n, ast.AugAssign):
      a, z = span(n); rep(a, z, 'pass', n, 'drop ' + b[a:z].decode()[:50])
    elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute):
      a, z = span(n); rep(a, z, 'pass', n, 'drop ' + b[a:z].decode()[:50])
    elif isinstance(n, ast.Call):
      if len(n.args) >= 2 and all(not isinstance(x, ast.Starred) for x in n.args):
        (a, z), (c, d) = span(n.args[0]), span(n.args[1])
        new = b[c:d] + b[z:c] + b[a:z]
        if b[a:z] != b[c:d]: rep(a, d, new.decode(), n, 'swap arguments')
      f = ast.unparse(n.func)
      for x, y in (('min', 'max'), ('floor', 'ceil'), ('sin', 'cos')):
        for u, v in ((x, y), (y, x)):
          if f.split('.')[-1] == u:
            a, z = span(n.func); t = b[a:z].decode(); rep(a, z, t[:len(t) - len(u)] + v, n, f'{u} -> {v}')
    elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Call) and 'copy' in ast.unparse(n.value.func):
      a, z = span(n.value); c, d = span(n.value.args[0]) if n.value.args else span(n.value.func.value)
      rep(a, z, b[c:d].decode(), n, 'drop copy')
  res, seen = [], set()
  for ln, what, t in out:
    if t in seen or t == b: continue
    seen.add(t)
    try: compile(t, 'x', 'exec')
    except SyntaxError: continue
    res.append((ln, what, t))
  return sorted(res, key=lambda r: r[0])

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('file'); ap.add_argument('checks')
  ap.add_argument('--lines'); ap.add_argument('--jobs', type=int, default=4)
  ap.add_argument('--procs', type=int, default=2); ap.add_argument('--every', type=int, default=1)
  ap.add_argument('--timeout', type=int, default=300)
  ap.add_argument('--list', action='store_true')
  a = ap.parse_args()
  rel = 'balloon_learning_environment/' + a.file
  src = open('/repo/' + rel).read()
  ms = mutants(src)
  if a.lines:
    lo, hi = map(int, a.lines.split('-')); ms = [m for m in ms if lo <= m[0] <= hi]
  ms = ms[::a.every]
  if a.list:
    for ln, w, _ in ms: print(ln, w)
  print(f'{a.file}: {len(ms)} mutants', flush=True)
  if a.list: return
  q = queue.Queue()
  for m in ms: q.put(m)
  stats, lock = {}, threading.Lock()
  top = tempfile.mkdtemp(prefix='mutate')
  def work(k):
    tree = f'{top}/{k}'
    subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', JAX_PLATFORMS='cpu',
             CUDA_VISIBLE_DEVICES='', MPLBACKEND='Agg', TF_CPP_MIN_LOG_LEVEL='3', MC_STOP='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONWARNINGS='ignore', TF_ENABLE_ONEDNN_OPTS='0',
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
             MC_EVIDENCE=f'{top}/ev{k}', PYTHONPATH=f'{tree}:/opt/vp/pytest_plugins',
             TEST_TMPDIR=f'{top}/t{k}', MPLCONFIGDIR=f'{top}/mpl{k}')
    os.makedirs(e['TEST_TMPDIR'], exist_ok=True)
    while True:
      try: ln, what, t = q.get_nowait()
      except queue.Empty: return
      open(f'{tree}/{rel}', 'wb').write(t)
      verdict = 'SURVIVES'
      for c in a.checks.split(','):
        r = subprocess.Popen([PY, '-m', 'mc.core', c, '--procs', str(a.procs)], cwd=ROOT, env=e,
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        try: r.wait(a.timeout)
        except subprocess.TimeoutExpired: verdict = f'TIMEOUT {c}'
        try: os.killpg(r.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        if verdict != 'SURVIVES': break
        if r.returncode == 1: verdict = 'caught'; break
        if r.returncode: verdict = f'ERROR {c} rc={r.returncode}'; break
      if verdict != 'caught':
        test = rel[:-3] + '_test.py'
        if os.path.exists(f'{tree}/{test}'):
          try:
            r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'absl_flags', test],
                               cwd=tree, env=e, capture_output=True, timeout=300)
            if r.returncode: verdict += ' (unit test fails)'
          except subprocess.TimeoutExpired: verdict += ' (unit test hangs)'
      with lock:
        stats[verdict] = stats.get(verdict, 0) + 1
        if verdict != 'caught':
          print(f'{a.file}:{ln}: {what} | {verdict} | {src.splitlines()[ln-1].strip()[:80]}', flush=True)
  ts = [threading.Thread(target=work, args=(k,)) for k in range(a.jobs)]
  for t in ts: t.start()
  for t in ts: t.join()
  shutil.rmtree(top)
  print(a.file, stats, flush=True)
main()

"""Exploration engine shared by every check.

A check module (mc/checks/cXX.py) defines

  PROP         property id
  LEVEL        'model_checking' | 'exploration' | 'fault_enumeration'
  RULE         how cases are generated, what makes one non-trivial
  ASSUMPTIONS  list of strings
  cases(tier)  -> list of JSON-able cases; together they partition the bounded
               space that is enumerated
  run(case, rec)  explores one case completely on the real code

`rec` records what was covered and every violation.  Nothing is sampled and no
time cap is applied: the space is fixed by the tier, and every case is run.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.environ.get('MC_EVIDENCE') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.json')
MAX_FAILS_PER_CASE = 25


class Abort(Exception):
  """Stops a case after too many failures."""


def digest(x) -> str:
  return hashlib.blake2b(repr(x).encode(), digest_size=8).hexdigest()


class Recorder:
  """Counts coverage and collects violations of one case."""

  def __init__(self, prop, known):
    self.prop = prop
    self.known = known           # {key: what}
    self.evaluations = 0
    self.transitions = 0
    self.traces = 0
    self.states = set()
    self.outcomes = set()
    self.samples = []
    self.fails = []
    self.known_hits = {}
    self.counters = collections.Counter()

  # -- coverage
  def ev(self, outcome=None, n=1):
    """One evaluated execution/input; outcome is hashed for distinctness."""
    self.evaluations += n
    if outcome is not None:
      self.outcomes.add(digest(outcome))

  def state(self, s):
    """Registers a state; True if it is new in this case."""
    h = digest(s)
    if h in self.states:
      return False
    self.states.add(h)
    return True

  def trans(self, n=1):
    self.transitions += n

  def trace(self, n=1):
    """A model trace replayed step by step against the implementation."""
    self.traces += n

  def count(self, name, n=1):
    self.counters[name] += n

  def sample(self, s):
    if len(self.samples) < 2:
      self.samples.append(s)

  # -- verdicts
  def fail(self, key, msg, detail=None):
    if key in self.known:
      self.known_hits[key] = self.known_hits.get(key, 0) + 1
      return
    self.fails.append(dict(key=key, msg=msg, detail=detail))
    if len(self.fails) >= MAX_FAILS_PER_CASE:
      raise Abort()

  def check(self, cond, key, msg, detail=None):
    """Records a violation unless cond.  msg may be a callable."""
    if not cond:
      self.fail(key, msg() if callable(msg) else msg,
                detail() if callable(detail) else detail)
    return bool(cond)

  def close(self, a, b, key, msg, rel=1e-9, abs_=1e-12, detail=None):
    import math
    a, b = float(a), float(b)
    ok = (a == b) or (math.isfinite(a) and math.isfinite(b) and
                      abs(a - b) <= max(abs_, rel * max(abs(a), abs(b))))
    if not ok:
      m = msg() if callable(msg) else msg
      self.fail(key, f'{m}: got {a!r}, expected {b!r}',
                detail() if callable(detail) else detail)
    return ok

  def raises(self, exc, fn, key, msg):
    """fn must raise one of exc."""
    try:
      r = fn()
    except exc:
      return True
    except Abort:
      raise
    except Exception as e:  # pylint: disable=broad-except
      self.fail(key, f'{msg}: raised {type(e).__name__} {e} instead')
      return False
    self.fail(key, f'{msg}: not refused, returned {r!r}'[:400])
    return False


def load_known(prop):
  if not os.path.exists(KNOWN):
    return {}
  with open(KNOWN) as f:
    d = json.load(f)
  return {k['key']: k['what'] for k in d.get('known', [])
          if k['property'] == prop}


_MODS = {}


def _load(name):
  if name not in _MODS:
    _MODS[name] = importlib.import_module(f'mc.checks.{name}')
  return _MODS[name]


class Hang(BaseException):
  """A case (seconds when idle) ran for HANG_S: the code does not return."""


HANG_S = int(os.environ.get('MC_HANG_S', '300'))


def _alarm(signum, frame):
  where = ''.join(traceback.format_stack(frame)[-3:])
  raise Hang(f'no answer within {HANG_S} s, at {where}')


def run_case(job):
  """Worker entry point."""
  name, idx, case, known = job[:4]
  t0 = time.time()
  rec = None
  try:
    mod = _load(name)
    rec = Recorder(mod.PROP, known)
    if len(job) > 4 and job[4] == 'quick':
      signal.signal(signal.SIGALRM, _alarm)
      signal.setitimer(signal.ITIMER_REAL, HANG_S, 5)
    mod.run(case, rec)
    signal.setitimer(signal.ITIMER_REAL, 0)
  except Abort:
    signal.setitimer(signal.ITIMER_REAL, 0)
  except Hang as e:
    signal.setitimer(signal.ITIMER_REAL, 0)
    rec.fails.append(dict(key='hang', msg=str(e)[:300],
                          detail=traceback.format_exc()[-3000:]))
  except BaseException as e:  # pylint: disable=broad-except
    signal.setitimer(signal.ITIMER_REAL, 0)
    if isinstance(e, KeyboardInterrupt):
      raise
    if rec is None:
      rec = Recorder(name.upper(), known)
    key = 'exception'
    tb = traceback.format_exc()
    rec.fails.append(dict(key=key, msg=f'{type(e).__name__}: {e}',
                          detail=tb[-3000:]))
  return dict(idx=idx, evaluations=rec.evaluations,
              transitions=rec.transitions, traces=rec.traces,
              states=rec.states, outcomes=rec.outcomes,
              samples=rec.samples, fails=rec.fails, known=rec.known_hits,
              counters=dict(rec.counters), wall=time.time() - t0)


def main(argv):
  import argparse
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('--procs', type=int, default=None)
  ap.add_argument('--profile', action='store_true')
  args = ap.parse_args(argv)
  tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
  name = args.prop.lower()
  t0 = time.time()
  os.makedirs(EVIDENCE, exist_ok=True)
  known = load_known(args.prop.upper())
  if args.replay:
    with open(args.replay) as f:
      rp = json.load(f)
    res = run_case((name, 0, rp['case'], known))
    for fl in res['fails']:
      print(fl['key'], fl['msg'])
      if fl['detail']:
        print(fl['detail'] if isinstance(fl['detail'], str)
              else json.dumps(fl['detail'], default=str))
    print('REPRODUCED' if res['fails'] else 'not reproduced')
    return 1 if res['fails'] else 0

  results = []
  try:
    mod = _load(name)
    cases = mod.cases(tier)
  except Exception:  # pylint: disable=broad-except
    # The code under test cannot even be imported/constructed.
    tb = traceback.format_exc()
    cases = []
    results = [dict(idx=0, evaluations=1, transitions=0, traces=0,
                    states=set(), outcomes=set(), samples=[], known={},
                    counters={}, wall=0.,
                    fails=[dict(key='exception', msg=tb.splitlines()[-1],
                                detail=tb[-3000:])])]
    mod = None
  jobs = [(name, i, c, known, tier) for i, c in enumerate(cases)]
  procs = args.procs or getattr(mod, 'PROCS', 8)
  procs = min(procs, len(jobs), os.cpu_count() or 1)
  if procs <= 1:
    results += [run_case(j) for j in jobs]
  else:
    ctx = mp.get_context('spawn')
    with ctx.Pool(procs) as pool:
      for r in pool.imap_unordered(run_case, jobs, chunksize=1):
        results.append(r)
        if args.profile:
          print(f"case {r['idx']} {r['wall']:.1f}s {cases[r['idx']]!r:.100}",
                file=sys.stderr)
        if r['fails'] and (os.environ.get('MC_STOP') or  # tools/mutate.py
                           r['fails'][-1]['key'] == 'hang'):
          pool.terminate()
          break
  results.sort(key=lambda r: r['idx'])

  states, outcomes, counters = set(), set(), collections.Counter()
  fails, khits, samples = [], collections.Counter(), []
  evaluations = transitions = traces = 0
  for r in results:
    evaluations += r['evaluations']
    transitions += r['transitions']
    traces += r['traces']
    states |= r['states']
    outcomes |= r['outcomes']
    counters.update(r['counters'])
    khits.update(r['known'])
    if len(samples) < 6:
      samples += r['samples'][:2]
    for fl in r['fails']:
      fails.append((r['idx'], fl))

  level = getattr(mod, 'LEVEL', 'exploration')
  cov = dict(evaluations=evaluations, distinct_nontrivial=len(outcomes),
             rule=getattr(mod, 'RULE', ''), samples=samples or ['none'],
             exhaustive=True, cases=len(jobs), counters=dict(counters))
  if level == 'model_checking':
    cov.update(states=len(states), transitions=transitions,
               traces_validated_against_impl=traces)
  ev = dict(property=args.prop.upper(), tier=tier,
            seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
            coverage=cov, assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
            wall_s=round(time.time() - t0, 2), violations=len(fails))
  tmp = os.path.join(EVIDENCE, f'.{args.prop.upper()}.tmp')
  with open(tmp, 'w') as f:
    json.dump(ev, f, indent=1, default=str)
  os.replace(tmp, os.path.join(EVIDENCE, f'{args.prop.upper()}.json'))

  for k in khits:
    print(f'KNOWN-FINDING: property={args.prop.upper()} {known[k]}')
  print(f"{args.prop.upper()} {tier}: cases={len(jobs)} evaluations="
        f"{evaluations} states={len(states)} transitions={transitions} "
        f"traces={traces} distinct={len(outcomes)} "
        f"counters={dict(counters)} wall={ev['wall_s']}s")
  if fails:
    rdir = os.path.join(EVIDENCE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f'{args.prop.upper()}.json')
    i, fl = fails[0]
    with open(rpath, 'w') as f:
      json.dump(dict(property=args.prop.upper(), tier=tier,
                     case=cases[i] if cases else None,
                     key=fl['key'], msg=fl['msg'], detail=fl['detail'],
                     all=[x[1]['key'] + ': ' + x[1]['msg']
                          for x in fails[:50]]), f, indent=1, default=str)
    for _, fl in fails[:8]:
      print(f"  [{fl['key']}] {fl['msg']}"[:600])
      if fl['key'] == 'exception' and fl['detail']:
        print('   ', '\n    '.join(str(fl['detail']).splitlines()[-6:]))
    print(f'VIOLATION property={args.prop.upper()} replay={rpath}')
    return 1
  return 0


if __name__ == '__main__':
  sys.exit(main(sys.argv[1:]))

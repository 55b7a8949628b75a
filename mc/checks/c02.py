"""C02: seeds determine episodes; nothing else leaks in."""
import hashlib
import itertools
import os
import random
import subprocess
import sys

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from mc import world
import jax
import numpy as np

PROP, LEVEL = 'C02', 'model_checking'
RULE = ('all interleavings of the operations of two (thorough: also three) '
        'environments, each compared with its solo run; all operation words '
        'up to a depth before a (re)seeding, through every seeding route, '
        'compared with a fresh instance; long lives of one instance in which '
        'seeds recur; all pairs of seeds, also against '
        'fresh processes with other hash seeds.')
ASSUMPTIONS = ['the simulator has no threads of its own: interleavings are of '
               'whole calls, and of one whole call placed between any two '
               'lines of another']


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='mix', wind=w, a=a, b=b, n=3)
         for w in ('static', 'smooth') for a, b in ((1, 2), (1, 1))]
  out += [dict(kind='history', wind=w, first=f, depth=2 if q else 3)
          for w in ('static', 'smooth') for f in range(6)]
  out += [dict(kind='history', wind=w, first=f, depth=1 if q else 2, s=0)
          for w in ('static', 'smooth') for f in range(6)]
  out += [dict(kind='again', wind=w, n=40 if q else 300)
          for w in ('static', 'smooth')]
  out += [dict(kind='seeds', wind=w, n=24 if q else 120)
          for w in ('static', 'smooth')]
  out += [dict(kind='arena', wind=w) for w in ('static', 'smooth')]
  out += [dict(kind='process', wind=w, n=3 if q else 8)
          for w in ('static', 'smooth')]
  out += [dict(kind='preempt', wind=w, op=o, part=i, of=8, upto=1 if q else 6)
          for w in (('smooth',) if q else ('static', 'smooth'))
          for o in ('step', 'reset') for i in range(8)]
  if not q:
    out += [dict(kind='mix', wind=w, a=a, b=b, n=5)
            for w in ('static', 'smooth') for a, b in ((1, 2), (3, 3))]
    out += [dict(kind='mix3', wind=w) for w in ('static', 'smooth')]
  return out


def summary(env):
  st = env.get_simulator_state()
  b = world.flat(st.balloon_state)
  w = st.wind_field.get_ground_truth(
      st.balloon_state.x, st.balloon_state.y, st.balloon_state.pressure,
      st.balloon_state.time_elapsed)
  at = st.atmosphere.at_height(world.units.Distance(meters=16000.))
  return (tuple(sorted(b.items())), w.u.mps, w.v.mps, float(at.pressure),
          float(at.temperature))


class Globals:
  """The global generators may not be read or written."""

  def __enter__(self):
    self.s = (random.getstate(), repr(np.random.get_state()))
    return self

  def __exit__(self, *a):
    pass

  def same(self):
    return self.s == (random.getstate(), repr(np.random.get_state()))


def do(env, op):
  """Runs one operation; returns everything observable about it."""
  if op == 'reset':
    o = env.reset()
    return ('reset', o.tobytes(), summary(env))
  if isinstance(op, tuple):
    if op[0] == 'reset':
      o, info = env.reset(seed=op[1], return_info=True)
      return ('reset', o.tobytes(), repr(sorted(info.items())), summary(env))
    env.seed(op[1])
    return ('seed',)
  o, r, d, info = env.step(op)
  return (op, o.tobytes(), r, d, repr(sorted(info.items(), key=str)),
          summary(env))


def run(case, rec):
  {'mix': mix, 'mix3': mix3, 'history': history, 'seeds': seeds,
   'preempt': preempt, 'arena': arena, 'process': process, 'again': again}[case['kind']](case, rec)
  rec.sample(case)


def solo(seed, wind, ops):
  env = world.make_env(seed, wind)
  return [do(env, op) for op in ops]


def perturb(i):
  random.seed(i)
  np.random.seed(i % 1000)
  np.random.rand(3)


def interleave(rec, case, seeds_, progs):
  want = [solo(s, case['wind'], p) for s, p in zip(seeds_, progs)]
  orders = set(itertools.permutations(
      [i for i, p in enumerate(progs) for _ in p]))
  # the instances are shared by all orders: each program begins with a reset
  # by seed, so that any leak from an earlier order shows up too
  envs = [world.make_env(900 + i, case['wind']) for i in range(len(progs))]
  for j, order in enumerate(sorted(orders)):
    pos = [0] * len(progs)
    perturb(j)
    with Globals() as g:
      for who in order:
        got = do(envs[who], progs[who][pos[who]])
        rec.trans()
        ok = rec.check(got == want[who][pos[who]], 'leak',
                       f'{case} order {order}: environment {who} operation '
                       f'{pos[who]} ({progs[who][pos[who]]}) differs from '
                       'its solo run')
        if not ok:
          return
        pos[who] += 1
      rec.check(g.same(), 'globals', f'{case} order {order}: the global '
                'random generators were used')
    rec.state((order,))
    rec.trace()
    rec.ev(outcome=order)


def mix(case, rec):
  prog = lambda s, k: [('reset', s)] + [0, 2, 1, 0, 2][:case['n'] - 1 + k]
  interleave(rec, case, (case['a'], case['b']),
             [prog(case['a'], 0), prog(case['b'], 0)])


REPO = os.path.dirname(os.path.dirname(os.path.abspath(features.__file__)))


def traced(fn, on_line):
  """Runs fn, calling on_line(file, line) before each line of the simulator."""
  def local(frame, event, arg):
    if event == 'line' and not done and on_line(
        frame.f_code.co_filename, frame.f_lineno):
      done.append(1)
    return None if done else local

  def enter(frame, event, arg):
    return (local if not done and frame.f_code.co_filename.startswith(REPO)
            else None)
  done = []
  old = sys.gettrace()
  sys.settrace(enter)
  try:
    return fn()
  finally:
    sys.settrace(old)


def preempt(case, rec):
  """Another environment runs between any two lines of an operation."""
  a = world.make_env(11, case['wind'])
  b = world.make_env(12, case['wind'])
  op = 2 if case['op'] == 'step' else ('reset', 8)
  prog = [('reset', 7)]
  tail = [1]
  intruder = [('reset', 9), 2]
  alone = [do(b, o) for o in intruder]
  want = [do(a, o) for o in prog + [op] + tail]
  for o in prog:
    do(a, o)
  lines = []
  traced(lambda: do(a, op), lambda f, n: lines.append((f, n)))
  seen, points = {}, []
  for i, l in enumerate(lines):
    seen[l] = seen.get(l, 0) + 1
    if seen[l] <= case['upto']:
      points.append(i)
  last = {l: i for i, l in enumerate(lines)}
  points = sorted(set(points) | (set(last.values()) if case['upto'] > 1
                                 else set()))
  rec.check(len(points) > 100, 'vacuous', f'{case}: {len(points)} points')
  for i in points[case['part']::case['of']]:
    got = [do(a, o) for o in prog]
    at = [0]
    other = []

    def on_line(f, n):
      if at[0] == i:
        sys.settrace(None)
        other.extend(do(b, o) for o in intruder)
        return True
      at[0] += 1
    got.append(traced(lambda: do(a, op), on_line))
    got += [do(a, o) for o in tail]
    where = (f'{case}: the other environment ran before line {lines[i][1]} of '
             f'{os.path.relpath(lines[i][0], REPO)}')
    if not other:
      rec.count('not reached')  # a line run only the first time
    rec.check(other in ([], alone), 'preempt-other', f'{where}: its episode differs '
              'from the one it has alone')
    rec.check(got == want, 'preempt', f'{where}: the interrupted operation and '
              'what follows differ')
    rec.trans(len(intruder) + 1)
    rec.trace()
    rec.state(lines[i])
    rec.ev(outcome=(case['op'], lines[i], i))
  rec.check(rec.counters['not reached'] < 50, 'vacuous', f'{case}: '
            'interruptions are not reached')


def mix3(case, rec):
  interleave(rec, case, (1, 2, 1), [[('reset', 1), 0, 'reset'],
                                    [('reset', 2), 2, 1],
                                    [('reset', 1), 0, 'reset']])


def history(case, rec):
  """Seeding forgets all earlier history, whatever the route."""
  s = case.get('s', 5)
  tail = ['reset', 0, 2, 'reset', 1]
  env = world.make_env(77, case['wind'])
  env.seed(s)
  want = [do(env, op) for op in tail]
  # constructor and reset(seed) are equivalent routes to the same first episode
  e1 = world.make_env(s, case['wind'])
  rec.check(summary(e1) == want[0][-1], 'route-constructor', f'{case}: the '
            'constructor seed gives another first episode')
  after = [do(e1, op) for op in ('reset', 1)]
  rec.check(after == want[3:], 'route-constructor', f'{case}: second '
            'episode differs after seeding in the constructor')
  ops = ['reset', 0, 2, ('seed', 9), ('reset', 9), ('reset', s)]
  first = ops[case['first']]
  env = world.make_env(78, case['wind'])
  for d in range(case['depth']):
    for w in itertools.product(ops, repeat=d):
      word = (first,) + w
      for route in ('seed', 'reset', 'numpy'):
        for op in word:
          do(env, op)
        perturb(len(word))
        if route == 'seed':
          env.seed(s)
          got = [do(env, op) for op in tail]
        else:
          r = do(env, ('reset', s if route == 'reset' else np.int64(s)))
          got = [('reset', r[1], r[3])] + [do(env, op) for op in tail[1:]]
        rec.check(got == want, 'history', f'{case}: after {word} seeding by '
                  f'{route} gives another episode')
        rec.trans(len(tail))
        rec.trace()
        rec.state(word)
        rec.ev(outcome=(word, route))


def again(case, rec):
  """The same seed again and again, through a long life of one instance."""
  env = world.make_env(3, case['wind'])
  ar = balloon_arena.BalloonArena(features.PerciatelliFeatureConstructor,
                                  world.make_wind(case['wind']), 3)
  first = {}
  route = [int, np.int64, np.int32]
  for i in range(case['n']):
    s = (0, 5, 6)[i % 3]
    got = [do(env, ('reset', s))[1:], do(env, 2)[1:]]
    if i % 4 == 3:
      do(env, 'reset')
    o = ar.reset(route[i % 5 % 3](s))
    rec.check(first.setdefault(('arena', s), o.tobytes()) == o.tobytes(),
              'again', f'{case}: after {i} episodes seed {s} gives another '
              'episode of the arena')
    rec.check(first.setdefault(s, got) == got, 'again', f'{case}: after {i} '
              f'episodes seed {s} gives another episode')
    rec.trans(3)
    rec.state((i, s))
    rec.ev(outcome=(i, s))
  rec.trace()
  # many unseeded episodes: all different, and the same for a fresh instance
  seqs = []
  for _ in range(2):
    env = world.make_env(4, case['wind'])
    seqs.append([do(env, 'reset')[1:] for _ in range(case['n'] // 2)])
    perturb(case['n'])
  rec.check(seqs[0] == seqs[1], 'again', f'{case}: long sequences of unseeded '
            'episodes differ')
  rec.check(len({r[-1] for r in seqs[0]}) == len(seqs[0]), 'again',
            f'{case}: unseeded episodes repeat')
  rec.trans(case['n'])


def seeds(case, rec):
  env = world.make_env(0, case['wind'])
  rows = []
  for s in range(case['n']):
    env.reset(seed=s)
    rows.append(summary(env))
    env2 = env.reset()
    rows.append(summary(env))
    rec.ev(outcome=rows[-1])
  fields = [k for k, _ in rows[0][0]]
  vary = {'x', 'y', 'p', 'lat0', 'lng0', 't', 'Ta', 'Ti', 'air', 'sp'}
  for k in vary:
    i = fields.index(k)
    vals = [r[0][i][1] for r in rows]
    rec.check(len(set(vals)) >= len(vals) - 1, 'distinct', f'{case}: {k} is '
              f'the same for different seeds ({len(set(vals))} of {len(vals)} '
              'distinct)')
  for j, name in ((1, 'wind u'), (2, 'wind v'), (3, 'atmosphere')):
    vals = [r[j] for r in rows]
    rec.check(len(set(vals)) >= len(vals) - 1, 'distinct', f'{case}: {name} '
              'is the same for different seeds')
  # separate quantities are drawn from separate keys: no two are functions of
  # one another (ranks would then agree or be reversed)
  cols = {k: [r[0][fields.index(k)][1] for r in rows] for k in
          ('lat0', 'lng0', 't', 'p')}
  cols['air'] = [r[3] for r in rows]
  cols['angle'] = [np.arctan2(dict(r[0])['y'], dict(r[0])['x']) % (2 * np.pi)
                   for r in rows]
  cols['radius'] = [np.hypot(dict(r[0])['y'], dict(r[0])['x']) for r in rows]
  for a, b in itertools.combinations(cols, 2):
    ra, rb = np.argsort(np.argsort(cols[a])), np.argsort(np.argsort(cols[b]))
    rho = np.corrcoef(ra, rb)[0, 1]
    rec.check(abs(rho) < 0.9, 'independent', f'{case}: {a} and {b} are drawn '
              f'together (rank correlation {rho:.3f})')
  rec.trans(len(rows))
  # every bit of a seed counts
  first = {}
  for s in [0, 5] + [5 ^ (1 << k) for k in range(31)] + [
      2**31 - 1, 123456789, 987654321]:
    env.reset(seed=s)
    got = summary(env)
    old = first.setdefault(got, s)
    rec.check(old == s, 'bits', f'{case}: seeds {old} and {s} give the same '
              'episode')
    rec.ev(outcome=got)
    rec.trans()


PROCESS_OPS = [0, 2, 1, 'reset', 0, 2]


def digest(seed, wind):
  env = world.make_env(seed, wind)
  return [hashlib.sha256(repr(do(env, op)).encode()).hexdigest()
          for op in [('reset', seed)] + PROCESS_OPS]


def process(case, rec):
  """A process that ran other episodes first answers like a fresh one."""
  root = os.path.dirname(os.path.dirname(os.path.dirname(
      os.path.abspath(__file__))))
  procs = []
  for s in range(1, case['n'] + 1):
    code = (f'import sys; sys.path[:0] = {sys.path!r}\n'
            'from mc.checks import c02\n'
            f'print("DIGEST", *c02.digest({s}, {case["wind"]!r}))')
    procs.append((s, subprocess.Popen(
        [sys.executable, '-W', 'ignore', '-c', code], cwd=root, text=True,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        env=dict(os.environ, PYTHONHASHSEED=str(s)))))
  fresh = {}
  for s, p in procs:
    o, e = p.communicate()
    lines = [l.split()[1:] for l in o.splitlines() if l.startswith('DIGEST')]
    rec.check(p.returncode == 0 and len(lines) == 1, 'harness',
              f'{case}: fresh process for seed {s}: {e[-300:]}')
    if lines:
      fresh[s] = lines[0]
  # every ordered pair of earlier episode and episode
  for a, b in itertools.product(sorted(fresh), repeat=2):
    for s in (a, b):
      got = digest(s, case['wind'])
      bad = [i for i, (x, y) in enumerate(zip(got, fresh[s])) if x != y]
      rec.check(not bad, 'process', f'{case}: seed {s} after other episodes in '
                f'the same process differs from a fresh process at operation '
                f'{bad[:1]} of {[("reset", s)] + PROCESS_OPS}')
      rec.trans(len(got))
    rec.trace()
    rec.state((a, b))
    rec.ev(outcome=(a, b))


def arena(case, rec):
  def make(seed=None):
    return balloon_arena.BalloonArena(features.PerciatelliFeatureConstructor,
                                      world.make_wind(case['wind']), seed)

  def snap(ar):
    class E:
      get_simulator_state = staticmethod(ar.get_simulator_state)
    return summary(E)
  for s in (0, 1, 12345, 2**31 - 1):
    ar = make(s)
    want = [snap(ar)]
    want += [ar.step(world.ACTS[a]).tobytes() for a in (0, 2)] + [snap(ar)]
    for route in (s, np.int64(s), np.int32(s), jax.random.PRNGKey(s),
                  np.asarray(jax.random.PRNGKey(s))):
      for pre in ([], [0], [2, 'r']):
        a2 = make(99)
        for op in pre:
          a2.reset(4) if op == 'r' else a2.step(world.ACTS[op])
        perturb(3)
        with Globals() as g:
          a2.reset(route)
          got = [snap(a2)]
          got += [a2.step(world.ACTS[a]).tobytes() for a in (0, 2)]
          got.append(snap(a2))
          rec.check(g.same(), 'globals', f'{case}: global generators used')
        rec.check(got == want, 'arena', f'{case}: seed {s} as {type(route)} '
                  f'after {pre} gives another episode')
        rec.trace()
        rec.trans(3)
        rec.ev(outcome=(s, str(type(route)), tuple(pre)))
  # without a seed: still a live episode, not tied to the previous one
  a = make(1)
  s0 = snap(a)
  a.reset()
  s1 = snap(a)
  rec.check(s0 != s1, 'unseeded', 'an unseeded reset repeated the episode')

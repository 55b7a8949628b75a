"""C27: evaluation results."""
import datetime as dt
import itertools
import json
import math
import types

from balloon_learning_environment.eval import eval_lib
from balloon_learning_environment.eval import suites
from balloon_learning_environment.utils import units
from mc import scripted
from mc import world
import numpy as np

PROP, LEVEL = 'C27', 'model_checking'
RULE = ('scripted: every combination of episode length, step limit, terminal '
        'cause and position relative to the radius (inside, exactly on it, '
        'outside) over one to three seeds, against a reference evaluation; '
        'the JSON of every result is read back. real: the real environment, '
        'all orders of three seeds, compared with a rollout by hand.')
ASSUMPTIONS = ['whether the agent is also asked for an action after the last '
               'step is not judged']
FLAGS = ('out_of_power', 'envelope_burst', 'zeropressure')


class Env:
  """Deterministic function of the seed it was last given."""

  def __init__(self, script, log, radius=50.0):
    self.script, self.log = script, log
    self.radius = units.Distance(km=radius)
    self.seeded = None
    self.cur = None

  def seed(self, s=None):
    self.log.append(('seed', s))
    self.seeded = s

  def reset(self, **kw):
    self.log.append(('reset',))
    self.cur, self.t = self.seeded, 0
    return ('obs', self.cur, 0)

  def state(self):
    x, y = self.script[self.cur]['path'][(self.t - 1) % len(
        self.script[self.cur]['path'])]
    return types.SimpleNamespace(
        x=units.Distance(km=x), y=units.Distance(km=y),
        pressure=6000.0 + self.t, superpressure=500.5 + self.t,
        time_elapsed=dt.timedelta(minutes=3 * self.t),
        battery_soc=1.0 / (1 + self.t))

  def reward(self):
    return 0.125 * ((self.t * 7 + len(str(self.cur))) % 9)

  def step(self, action):
    self.t += 1
    sc = self.script[self.cur]
    done = sc['n'] is not None and self.t >= sc['n']
    self.log.append(('env', action))
    info = {f: done and f in sc['why'] for f in FLAGS}
    info['time_elapsed'] = dt.timedelta(minutes=3 * self.t)
    return ('obs', self.cur, self.t), self.reward(), done, info

  def render(self, *a, **k):
    self.log.append(('render',))

  def get_simulator_state(self):
    return types.SimpleNamespace(balloon_state=self.state())


IN, ON, OUT, NEAR = (3.0, -4.0), (30.0, 40.0), (30.0, 40.001), (-50.0, 0.0)
PATHS = [[IN], [ON], [OUT], [IN, OUT], [OUT, ON, IN], [NEAR, OUT],
         [(0.0, 50.001), IN, (0.0, -50.0)], [OUT, OUT, IN]]
WHYS = [(), ('out_of_power',), ('envelope_burst',), ('zeropressure',),
        ('out_of_power', 'zeropressure')]


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='one', limit=m, path=p) for m in (1, 2, 3, 4, 7)
         for p in range(len(PATHS))]
  out += [dict(kind='many', limit=m, first=i, deep=not q) for m in (1, 2, 3)
          for i in range(5)]
  out += [dict(kind='options'), dict(kind='json'), dict(kind='long')]
  out += [dict(kind='real', wind=w) for w in (('static', 'rough') if q else
                                              ('static', 'smooth', 'rough'))]
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def reference(script, seeds, limit, radius=50.0):
  out = []
  for s in seeds:
    sc = script[s]
    n = limit if sc['n'] is None else min(limit, sc['n'])
    done = sc['n'] is not None and sc['n'] <= limit
    total, inside, path = 0.0, 0, []
    for t in range(1, n + 1):
      total += 0.125 * ((t * 7 + len(str(s))) % 9)
      x, y = sc['path'][(t - 1) % len(sc['path'])]
      inside += math.sqrt(x * x + y * y) <= radius
      path.append(dict(x=x, y=y, pressure=6000.0 + t, superpressure=500.5 + t,
                       elapsed_seconds=180.0 * t, power=1.0 / (1 + t)))
    out.append(dict(seed=s, cumulative_reward=total, time_within_radius=inside
                    / n, final_timestep=n, flight_path=path,
                    **{f: done and f in sc['why'] for f in FLAGS}))
  return out


def compare(rec, got, want, where):
  """EvaluationResults against reference dictionaries."""
  if not rec.check(len(got) == len(want), 'count', f'{where}: {len(got)} '
                   f'results for {len(want)} seeds'):
    return
  for r, w in zip(got, want):
    for k in ('seed', 'final_timestep') + FLAGS:
      rec.check(getattr(r, k) == w[k], k, f'{where}: {k} of seed {w["seed"]} '
                f'is {getattr(r, k)}, expected {w[k]}')
    for k in ('cumulative_reward', 'time_within_radius'):
      rec.close(getattr(r, k), w[k], k, f'{where}: seed {w["seed"]}')
    path = [dict(x=p.x.kilometers, y=p.y.kilometers, pressure=p.pressure,
                 superpressure=p.superpressure,
                 elapsed_seconds=p.time_elapsed.total_seconds(),
                 power=p.battery_soc) for p in r.flight_path]
    rec.check(same_path(path, w['flight_path']), 'flight_path', f'{where}: '
              f'seed {w["seed"]} flew {str(path)[:300]}, expected '
              f'{str(w["flight_path"])[:300]}')


def same_path(a, b):
  return len(a) == len(b) and all(
      p.keys() == q.keys() and all(abs(p[k] - q[k]) <= 1e-9 * max(
          1, abs(q[k])) for k in q) for p, q in zip(a, b))


def roundtrip(rec, got, want, where):
  for indent in (None, 2):
    text = json.dumps(got, cls=eval_lib.EvalResultEncoder, indent=indent)
    back = json.loads(text)
    if not rec.check(len(back) == len(want), 'json', f'{where}: {len(back)} '
                     'results after JSON'):
      return
    for b, w in zip(back, want):
      rec.check(set(b) == set(w), 'json-keys', f'{where}: keys {sorted(b)}')
      for k in w:
        if k == 'flight_path':
          rec.check(same_path(b[k], w[k]), 'json-path', f'{where}: JSON of seed '
                    f'{w["seed"]}: {str(b[k])[:300]}')
        elif isinstance(w[k], bool):
          rec.check(b.get(k) is w[k], 'json', f'{where}: {k} is {b.get(k)}')
        else:
          rec.close(b.get(k, math.nan), w[k], 'json', f'{where}: {k}')


def protocol(rec, log, want, where):
  """The calls: seed, reset, begin, then steps in order, one end."""
  i = 0
  for w in want:
    part = log[i:i + 2]
    rec.check(part == [('seed', w['seed']), ('reset',)], 'protocol',
              f'{where}: seed {w["seed"]} starts with {part}')
    i += 2
    if not (i < len(log) and log[i][0] == 'begin' and
            log[i][1] == ('obs', w['seed'], 0)):
      rec.fail('protocol', f'{where}: begin {log[i:i + 1]}')
      return
    a = log[i][2]
    i += 1
    for t in range(1, w['final_timestep'] + 1):
      if not rec.check(log[i:i + 1] == [('env', a)], 'protocol', f'{where}: '
                       f'step {t} of seed {w["seed"]} sends {log[i:i + 1]}, '
                       f'the agent chose {a}'):
        return
      i += 1
      last = t == w['final_timestep']
      r = 0.125 * ((t * 7 + len(str(w['seed']))) % 9)
      if i < len(log) and log[i][0] == 'step':
        rec.check(log[i][1:3] == (r, ('obs', w['seed'], t)), 'protocol',
                  f'{where}: the agent gets {log[i]} at step {t}')
        a = log[i][3]
        i += 1
      else:
        rec.check(last, 'protocol', f'{where}: no agent step after {t}')
    terminal = w['terminal']
    if not rec.check(log[i:i + 1] == [('end', r, terminal)], 'protocol',
                     f'{where}: seed {w["seed"]} ends with {log[i:i + 1]}, '
                     f'expected reward {r}, terminal {terminal}'):
      return
    i += 1
  rec.check(i == len(log), 'protocol', f'{where}: extra calls {log[i:i + 3]}')


def evaluate(rec, script, seeds, limit, where, radius=50.0, **kw):
  log = []
  agent = scripted.Agent(log)
  del log[:]
  suite = suites.EvaluationSuite(seeds=seeds, max_episode_length=limit)
  got = eval_lib.eval_agent(agent, Env(script, log, radius), suite, **kw)
  want = reference(script, seeds, limit, radius)
  for w in want:
    sc = script[w['seed']]
    w['terminal'] = sc['n'] is not None and sc['n'] <= limit
  modes = [i for i, x in enumerate(log) if x[0] == 'mode']
  begins = [i for i, x in enumerate(log) if x[0] == 'begin']
  ok = modes and [log[i][1] for i in modes][-1] == 'eval' and (
      not begins or modes[0] < begins[0])
  rec.check(bool(ok), 'mode', f'{where}: the agent is not in evaluation mode')
  protocol(rec, [x for x in log if x[0] not in ('mode', 'render')], want, where)
  for w in want:
    del w['terminal']
  rec.trans(len(log))
  return got, want, log


def do_one(case, rec):
  for n in [None] + list(range(1, case['limit'] + 2)):
    for why in (WHYS if n is not None else WHYS[:1]):
      script = {5: dict(n=n, why=why, path=PATHS[case['path']])}
      where = f'limit {case["limit"]}, {script[5]}'
      got, want, _ = evaluate(rec, script, [5], case['limit'], where)
      compare(rec, got, want, where)
      roundtrip(rec, got, want, where)
      rec.state((case['limit'], n, why, case['path']))
      rec.ev(outcome=(case['limit'], n, why, case['path']))
      rec.trace()


def do_many(case, rec):
  kinds = [dict(n=None, why=(), path=PATHS[3]),
           dict(n=1, why=WHYS[1], path=PATHS[4]),
           dict(n=2, why=WHYS[2], path=PATHS[0]),
           dict(n=3, why=WHYS[3], path=PATHS[5]),
           dict(n=2, why=(), path=PATHS[2])]
  for ks in itertools.product(range(5), repeat=2):
    for seeds in ([0, 1, 2], [17, 3, 100000], [4, 4, 9]):
      pick = (case['first'],) + ks
      script = {s: kinds[k] for s, k in zip(seeds, pick)}
      for form in (list, tuple):
        where = f'limit {case["limit"]}, seeds {seeds}, episodes {pick}'
        got, want, _ = evaluate(rec, script, form(seeds), case['limit'], where)
        compare(rec, got, want, where)
        roundtrip(rec, got, want, where)
        rec.ev(outcome=(case['limit'], pick, seeds))
        rec.state((case['limit'], pick, tuple(seeds)))
        rec.trace()


def do_options(case, rec):
  script = {s: dict(n=s + 1 if s != 3 else None, why=WHYS[s % 5],
                    path=PATHS[s]) for s in range(5)}
  # no flight path; other radius; rendering; ranges; nothing to do
  for period in (1, 2, 3, 10):
    for path in (True, False):
      where = f'render period {period}, flight paths {path}'
      got, want, log = evaluate(rec, script, range(5), 4, where,
                                render_period=period,
                                calculate_flight_path=path)
      if not path:
        want = [dict(w, flight_path=[]) for w in want]
      compare(rec, got, want, where)
      roundtrip(rec, got, want, where)
      n = sum(1 for w in want for t in range(w['final_timestep'])
              if t % period == 0)
      rec.check(log.count(('render',)) == n, 'render', f'{where}: rendered '
                f'{log.count(("render",))} times, expected {n}')
      rec.ev(outcome=(period, path))
  for radius in (1.0, 5.0, 49.9, 50.0, 50.0005, 60.0):
    got, want, _ = evaluate(rec, script, range(5), 4, f'radius {radius}',
                            radius)
    compare(rec, got, want, f'radius {radius}')
    rec.ev(outcome=radius)
  got, _, log = evaluate(rec, script, [], 4, 'no seeds')
  rec.check(got == [], 'empty', f'no seeds: {got}')
  for bad in (0, -1):
    log = []
    rec.raises(AssertionError, lambda: eval_lib.eval_agent(
        scripted.Agent([]), Env(script, log), suites.EvaluationSuite([1], bad)),
               'limit', f'maximum length {bad}')


def do_long(case, rec):
  """A published-size episode and a long suite."""
  script = {s: dict(n=[None, 960, 959, 100][s % 4], why=WHYS[s % 5],
                    path=PATHS[s % len(PATHS)]) for s in range(40)}
  got, want, _ = evaluate(rec, script, list(range(8)), 960, 'long')
  compare(rec, got, want, 'long')
  roundtrip(rec, got, want, 'long')
  got, want, _ = evaluate(rec, script, list(range(39, -1, -1)), 30, 'wide')
  compare(rec, got, want, 'wide')
  rec.ev(outcome='long')
  rec.trace(2)


def do_json(case, rec):
  """Every kind of number that can be in a result survives JSON."""
  import jax.numpy as jnp
  for v in (0.0, 1.5, 1e-300, 123456.789012345, np.float64(0.1),
            np.array(2.5), np.array([2.5]), jnp.array(0.5), jnp.array([0.5])):
    for b in (True, False):
      r = eval_lib.EvaluationResult(3, v, v, b, not b, b, 960, [
          eval_lib.SimpleBalloonState(
              units.Distance(m=v), units.Distance(km=-1.0), v, v,
              dt.timedelta(days=2, seconds=7.25), v)])
      d = json.loads(json.dumps([r], cls=eval_lib.EvalResultEncoder))[0]
      f = float(np.asarray(v).reshape(()))
      p = d['flight_path'][0]
      ok = (d['seed'] == 3 and d['cumulative_reward'] == f and
            d['time_within_radius'] == f and d['out_of_power'] is b and
            d['envelope_burst'] is (not b) and d['zeropressure'] is b and
            d['final_timestep'] == 960 and p['pressure'] == f and
            p['superpressure'] == f and p['power'] == f and p['y'] == -1.0 and
            p['elapsed_seconds'] == 172807.25 and
            abs(float(np.asarray(p['x']).reshape(())) - f / 1000) <= 1e-6 * f)
      rec.check(ok, 'json', f'value {v!r}: {d}')
      rec.ev(outcome=(repr(v), b))
      rec.trans()
  rec.raises(TypeError, lambda: json.dumps(
      object(), cls=eval_lib.EvalResultEncoder), 'json', 'an unknown object')


class Fixed(scripted.Agent):
  """A memoryless policy: a function of the step."""

  def __init__(self, word):
    self.word = word
    super().__init__([])

  def begin_episode(self, observation):
    self.k = 0
    return self.word[0]

  def step(self, reward, observation):
    self.k += 1
    return self.word[self.k % len(self.word)]


def do_real(case, rec):
  env = world.make_env(3, case['wind'])
  limit = 3
  for word in ([0, 2, 1], [2, 2, 0]):
    want = {}
    for s in (0, 5, 11):
      env2 = env
      env2.seed(s)
      env2.reset()
      total, inside, path = 0.0, 0, []
      done, info, n = False, {}, 0
      for t in range(limit):
        _, r, done, info = env2.step(word[t % 3])
        b = env2.get_simulator_state().balloon_state
        total += r
        n += 1
        inside += math.hypot(b.x.kilometers, b.y.kilometers) <= 50.0
        path.append(dict(x=b.x.kilometers, y=b.y.kilometers,
                         pressure=b.pressure, superpressure=b.superpressure,
                         elapsed_seconds=180.0 * (t + 1),
                         power=b.battery_charge.watt_hours /
                         b.battery_capacity.watt_hours))
        if done:
          break
      want[s] = dict(seed=s, cumulative_reward=total, time_within_radius=inside
                     / n, final_timestep=n, flight_path=path,
                     **{f: bool(done and info[f]) for f in FLAGS})
    for seeds in list(itertools.permutations((0, 5, 11))) + [(5,), (11, 11)]:
      got = eval_lib.eval_agent(Fixed(word), env, suites.EvaluationSuite(
          list(seeds), limit))
      w = [want[s] for s in seeds]
      compare(rec, got, w, f'real environment, seeds {seeds}, actions {word}')
      roundtrip(rec, got, w, f'real environment, seeds {seeds}')
      rec.ev(outcome=(case['wind'], seeds, word))
      rec.trans(limit * len(seeds))
      rec.state((case['wind'], seeds, tuple(word)))
      rec.trace()

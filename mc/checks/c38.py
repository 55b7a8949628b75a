"""C38: true winds are seen only where the balloon has been."""
import itertools

from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import wind_field
from mc import world
import numpy as np

PROP, LEVEL = 'C38', 'model_checking'
TECHNIQUE = ('exhaustive action words on the real environment, each replayed in '
             'worlds whose true wind differs everywhere except on the flown '
             'path (noninterference by enumeration)')
RULE = ('words: every action word up to a depth from several seeds and winds, '
        'replayed in worlds that differ everywhere but at the points flown '
        '(nearby, above and below, earlier and later, everywhere): '
        'observation, reward, end and information are the same bit for bit. '
        'flights: the same along long flights, over two episodes. seen: a world '
        'that differs only at one flown point does change the observation made '
        'there.')
ASSUMPTIONS = ['the flown points are where the balloon is at the ends of the '
               'agent steps: the wind is held over a step']


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='words', wind=w, seed=s, first=a, depth=4 if q else 6)
         for w in ('static', 'smooth') for s in range(2 if q else 4)
         for a in range(3)]
  out += [dict(kind='flights', wind=w, seed=s, n=60 if q else 300)
          for w in ('static', 'smooth', 'rough') for s in range(2 if q else 6)]
  out += [dict(kind='seen', wind=w, seed=s, n=5 if q else 12)
          for w in ('static', 'smooth') for s in range(2)]
  return out


def place(x, y, pressure, elapsed):
  return (round(float(x.meters), 3), round(float(y.meters), 3),
          round(float(pressure), 4), elapsed)


class World(wind_field.WindField):
  """A wind field whose truth is changed by a rule on places."""

  def __init__(self, inner, rule=None):
    super().__init__()
    self.inner = inner
    self.rule = rule
    self.changed = 0
    self.kept = 0

  def reset(self, key, date_time):
    self.inner.reset(key, date_time)

  def reset_forecast(self, key, date_time):
    self.inner.reset_forecast(key, date_time)

  def get_forecast(self, x, y, pressure, elapsed_time):
    return self.inner.get_forecast(x, y, pressure, elapsed_time)

  def get_forecast_column(self, x, y, pressures, elapsed_time):
    return self.inner.get_forecast_column(x, y, pressures, elapsed_time)

  def get_ground_truth(self, x, y, pressure, elapsed_time):
    w = self.inner.get_ground_truth(x, y, pressure, elapsed_time)
    d = self.rule and self.rule(place(x, y, pressure, elapsed_time))
    if not d:
      self.kept += 1
      return w
    self.changed += 1
    return w.add(world.wind(*d))


def everywhere(flown):
  return lambda at: None if at in flown else (17., -9.)


def above_below(flown):
  """Only other pressures at flown places and times."""
  seen = {(a[0], a[1], a[3]): a[2] for a in flown}

  def rule(at):
    if at in flown or (at[0], at[1], at[3]) not in seen:
      return None
    return (-25., 25.) if at[2] > seen[(at[0], at[1], at[3])] else (30., 3.)
  return rule


def other_times(flown):
  seen = {a[:3] for a in flown}
  return lambda at: None if at in flown or at[:3] not in seen else (8., 8.)


def later(flown):
  """Different after each flown instant, anywhere."""
  times = sorted({a[3] for a in flown})
  return lambda at: None if at in flown or at[3] <= times[0] else (-40., 1.)


RULES = [everywhere, above_below, other_times, later]


def make(kind, seed, rule=None):
  ws = []

  def factory():
    ws.append(World(world.make_wind(kind), rule))
    return ws[-1]
  env = balloon_env.BalloonEnv(wind_field_factory=factory, seed=seed)
  return env, ws[0]


def here(env):
  b = env.get_simulator_state().balloon_state
  return place(b.x, b.y, b.pressure, b.time_elapsed)


def fly(env, seed, word):
  """All that an agent sees, and the places flown."""
  env.seed(seed)
  seen = [env.reset().tobytes()]
  at = [here(env)]
  for a in word:
    if a == 'reset':
      seen.append(env.reset().tobytes())
    else:
      o, r, d, info = env.step(a)
      seen.append((o.tobytes(), r, d, repr(sorted(info.items(), key=str))))
    at.append(here(env))
    if a != 'reset' and d:
      break
  return seen, at


_CACHE = {}


def worlds(kind):
  """One plain environment and one per rule, made once per process."""
  if kind not in _CACHE:
    _CACHE[kind] = [make(kind, 1)] + [make(kind, 1) for _ in RULES]
  return _CACHE[kind]


def compare(case, rec, seed, word):
  (env, w), *others = worlds(case['wind'])
  seen, at = fly(env, seed, word)
  flown = set(at)
  for rule, (e, v) in zip(RULES, others):
    v.rule, v.changed, v.kept = rule(flown), 0, 0
    got, _ = fly(e, seed, word)
    rec.trans(len(word) + 1)
    bad = next((i for i, (x, y) in enumerate(zip(got, seen)) if x != y), None)
    rec.check(bad is None and len(got) == len(seen), 'unseen-wind',
              lambda: f'{case} word {word}: what the agent sees at step {bad} '
              f'depends on winds where the balloon has not been '
              f'({rule.__name__}; {v.changed} such winds asked for)')
    rec.check(v.kept >= len(word), 'vacuous', lambda: f'{case} {word}: the true '
              f'wind was asked for {v.kept} times')
    v.rule = None
  rec.trace()
  rec.state((case['wind'], seed, word))
  rec.ev(outcome=(case['wind'], seed, word))


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def do_words(case, rec):
  for n in range(case['depth']):
    if n + 1 < case['depth'] - 1:
      continue
    for w in itertools.product(range(3), repeat=n):
      compare(case, rec, case['seed'] + 1, (case['first'],) + w)


def do_flights(case, rec):
  n = case['n']
  for k, word in enumerate((
      tuple(i * i % 3 for i in range(n)) + ('reset',) + (0, 2, 1),
      (0,) * (n // 2) + (2,) * (n // 2),
      ('reset',) + tuple(i // 7 % 3 for i in range(n)) + ('reset', 2))):
    compare(case, rec, 100 * case['seed'] + k, word)


def do_seen(case, rec):
  """A different wind at one flown point is noticed there, and not before."""
  for word in ((0, 2, 1, 1, 0, 2, 0, 0, 2, 1, 1, 1)[:case['n']],
               (1,) * case['n']):
    (env, w), (e, v), *_ = worlds(case['wind'])
    seen, at = fly(env, case['seed'] + 1, word)
    for i in range(len(at)):
      v.rule = lambda p, i=i: (3., 2.) if p == at[i] else None
      got, _ = fly(e, case['seed'] + 1, word)
      v.rule = None
      rec.check(got[:i] == seen[:i], 'foreseen', f'{case} {word}: a wind met '
                f'at step {i} is seen before')
      x, y = (s[i] if isinstance(s[i], bytes) else s[i][0]
              for s in (got, seen))
      rec.check(x != y, 'measured', f'{case} {word}: the wind met at step {i} '
                'is not measured')
      rec.trans(len(word))
      rec.state((case['wind'], word, i))
      rec.ev(outcome=(case['wind'], word, i))
    rec.trace()
  # without noise the features of the balloon's own level are its forecast
  rec.check(np.isfinite(np.frombuffer(seen[0], np.float32)).all(), 'vacuous',
            'the observation is not made of numbers')

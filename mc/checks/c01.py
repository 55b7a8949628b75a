"""C01: the gym contract, on every action word."""
import copy
import datetime as dt
import itertools
import math

from mc import world
from mc import words
from mc.ref import physics
import numpy as np

PROP, LEVEL = 'C01', 'model_checking'
RULE = ('every action word up to a depth on the real environment (tree '
        'search, one snapshot per node) for several seeds and wind fields; '
        'long de Bruijn words and constant policies over a day of flight; '
        'every terminal cause reached at every stride of a step, then stepped '
        'and reset; every out-of-range action.')
ASSUMPTIONS = ['winds are the static field and synthetic grid fields, as the '
               'trained generator weights are not in this checkout']
STEP = dt.timedelta(minutes=3)
KEYS = {'out_of_power', 'envelope_burst', 'zeropressure', 'time_elapsed'}
CAUSE = {'OK': None, 'OUT_OF_POWER': 'out_of_power',
         'BURST': 'envelope_burst', 'ZEROPRESSURE': 'zeropressure'}


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='api', wind=w) for w in ('static', 'smooth')]
  out += [dict(kind='terminal', cause=c, act=a) for c in
          ('out_of_power', 'envelope_burst', 'zeropressure')
          for a in range(3)]
  for s in range(4 if q else 12):
    for a in range(3):
      out.append(dict(kind='tree', seed=s, wind=('static', 'smooth')[s % 2],
                      first=a, depth=5 if q else 7))
  for s in range(2 if q else 10):
    for pol in ('db', 'up', 'down', 'stay', 'cycle'):
      out.append(dict(kind='long', seed=100 + s, policy=pol,
                      wind=('smooth', 'static')[s % 2],
                      n=500 if q else 1500))
  out += [dict(kind='late', wind=w, days=d) for w in ('static', 'smooth')
          for d in (1.25, 2.0, 3.9979, 10.0, 45.3)]
  return out


def obs_ok(rec, env, obs, where):
  sp = env.observation_space
  rec.check(isinstance(obs, np.ndarray) and obs.dtype == sp.dtype and
            obs.shape == sp.shape, 'obs-type', f'{where}: observation '
            f'{type(obs)} {getattr(obs, "dtype", "")} '
            f'{getattr(obs, "shape", "")} against {sp}')
  if not rec.check(bool(np.all(np.isfinite(obs))), 'obs-finite', f'{where}: '
                   f'not finite at {np.flatnonzero(~np.isfinite(obs))[:5]}'):
    return
  bad = np.flatnonzero((obs < sp.low) | (obs > sp.high))
  rec.check(len(bad) == 0, 'obs-bounds', lambda: f'{where}: feature {bad[0]} '
            f'is {obs[bad[0]]!r}, bounds {sp.low[bad[0]]}..{sp.high[bad[0]]}')
  rec.check(sp.contains(obs), 'obs-space', f'{where}: not in the space')


def info_ok(rec, info, status, elapsed, where):
  rec.check(KEYS <= set(info), 'info-keys', f'{where}: {sorted(info)}')
  on = [k for k in ('out_of_power', 'envelope_burst', 'zeropressure')
        if info[k]]
  want = [CAUSE[status]] if CAUSE[status] else []
  rec.check(on == want, 'info-cause', f'{where}: info names {on}, the balloon '
            f'is {status}')
  rec.check(info['time_elapsed'] == elapsed, 'info-elapsed',
            f"{where}: info says {info['time_elapsed']}, expected {elapsed}")


def step(rec, env, a, where):
  """One checked step from a live state; returns done."""
  b0 = env.get_simulator_state().balloon_state
  t0, e0 = b0.date_time, b0.time_elapsed
  obs, rew, done, info = env.step(a)
  b = env.get_simulator_state().balloon_state
  rec.trans()
  obs_ok(rec, env, obs, where)
  ok = isinstance(rew, (float, np.floating)) and math.isfinite(rew)
  rec.check(ok and 0.0 <= rew <= 1.0, 'reward', f'{where}: reward {rew!r}')
  rec.check(bool(done) == (b.status.name != 'OK'), 'done', f'{where}: done is '
            f'{done}, status {b.status.name}')
  info_ok(rec, info, b.status.name, b.time_elapsed, where)
  d, e = b.date_time - t0, b.time_elapsed - e0
  if b.status.name == 'OK':
    rec.check(d == STEP and e == STEP, 'clock', f'{where}: the step took {e} '
              f'(date moved {d})')
  else:
    rec.check(d == e and dt.timedelta() < e <= STEP, 'clock', f'{where}: the '
              f'last step took {e}, date moved {d}')
  rec.check(b.last_command.value == a, 'command', f'{where}: action {a} '
            f'recorded as {b.last_command}')
  return bool(done), obs


def fresh(rec, env, obs, where):
  b = env.get_simulator_state().balloon_state
  obs_ok(rec, env, obs, where)
  rec.check(b.status.name == 'OK' and b.time_elapsed == dt.timedelta(),
            'reset', f'{where}: after reset {b.status} {b.time_elapsed}')


def run(case, rec):
  {'api': api, 'terminal': terminal, 'tree': tree, 'long': long_,
   'late': late}[
      case['kind']](case, rec)
  rec.sample(case)


def tree(case, rec):
  env = world.make_env(case['seed'], case['wind'])
  fresh(rec, env, env.reset(), f'{case}')

  def go(env, word):
    d, obs = step(rec, env, word[-1], f"seed {case['seed']} {case['wind']} "
                  f'actions {word}')
    rec.ev(outcome=obs[:16].tolist())
    rec.state(tuple(sorted(world.flat(
        env.get_simulator_state().balloon_state).items())))
    if d or len(word) >= case['depth']:
      rec.trace()
      return
    for a in range(3):
      go(copy.deepcopy(env) if a < 2 else env, word + [a])
  go(env, [case['first']])


def long_(case, rec):
  env = world.make_env(case['seed'], case['wind'])
  seq = {'db': words.debruijn(3, 6), 'up': [2], 'down': [0], 'stay': [1],
         'cycle': [2] * 60 + [0] * 60}[case['policy']]
  seq = list(itertools.islice(itertools.cycle(seq), case['n']))
  old = []
  for i, a in enumerate(seq):
    d, obs = step(rec, env, a, f'{case} step {i}')
    rec.ev(outcome=obs[:16].tolist())
    old.append((obs, obs.copy()))
    if d:
      rec.count('ended')
      rec.raises(AssertionError, lambda: env.step(1), 'after-end',
                 f'{case}: step after the end')
      fresh(rec, env, env.reset(), f'{case} after the end')
  rec.check(all((o == c).all() for o, c in old), 'obs-aliased',
            f'{case}: an observation changed after it was handed out')
  rec.trace()


def late(case, rec):
  """A flight that has lasted for days already."""
  env = world.make_env(21, case['wind'])
  for act in range(3):
    env.reset(seed=21 + act)
    b = env.arena.get_balloon_state()
    b.time_elapsed = b.time_elapsed + dt.timedelta(days=case['days'])
    b.date_time = b.date_time + dt.timedelta(days=case['days'])
    for i in range(8):
      where = f'{case}, action {act}, step {i}'
      d, obs = step(rec, env, act if i < 4 else i % 3, where)
      rec.ev(outcome=obs[:16].tolist())
      if d:
        break
    o, info = env.reset(return_info=True)
    fresh(rec, env, o, where)
    info_ok(rec, info, 'OK', dt.timedelta(), where + ', reset')
    rec.trace()


def bisect(f, lo, hi):
  for _ in range(80):
    m = (lo + hi) / 2
    lo, hi = (m, hi) if f(m) < 0 else (lo, m)
  return lo


def terminal(case, rec):
  cause, act = case['cause'], case['act']
  env = world.make_env(7, 'smooth')
  W = world.units
  n = 0
  for k in range(0, 21):
    env.reset(seed=11)
    s = env.arena.get_balloon_state()
    if cause == 'out_of_power':
      # at night the load empties the battery in stride k
      when, charge = (2013, 3, 25, 23, 0, 0), 183.7 * (10 * k + 5) / 3600
      s2 = world.state(0., 0., when, 8000., charge=charge,
                       power_safety_layer_enabled=False)
      if act == 0:
        s2.battery_charge = W.Energy(watt_hours=charge * 1.9)
    elif cause == 'envelope_burst':
      # enough gas to burst at the equilibrium temperature, started colder
      s2 = world.state(0., 0., (2013, 3, 25, 12, 0, 0), 8000.)
      he = s2.mols_lift_gas
      air = bisect(lambda a: physics.envelope(
          he + a, s2.internal_temperature, 8000., s2.envelope_volume_base,
          s2.envelope_volume_dv_pressure)[1] - 2400., 0., 9000.)
      s2.mols_air = air
      s2.internal_temperature -= 0.4 * k
    else:
      # too little gas to stay taut at the equilibrium, started warmer
      s2 = world.state(0., 0., (2013, 3, 25, 1, 0, 0), 8000.)
      air = (8000. * s2.envelope_volume_base * 0.998 / (
          physics.R * s2.internal_temperature)) - s2.mols_lift_gas
      s2.mols_air = max(air, 0.)
      s2.internal_temperature += 0.15 * k
    env.arena.set_balloon_state(s2)
    where = f'{case} variant {k}'
    d, obs = False, None
    for i in range(3):
      d, obs = step(rec, env, act, where)
      if d:
        break
    rec.ev(outcome=(cause, act, d, env.get_simulator_state()
                    .balloon_state.time_elapsed.total_seconds()))
    if not d:
      rec.count('survived')
      continue
    n += 1
    b = env.get_simulator_state().balloon_state
    rec.count(b.status.name)
    rec.state((b.status.name, b.time_elapsed.total_seconds()))
    before = world.flat(b)
    for a in range(3):
      rec.raises(AssertionError, lambda: env.step(a), 'after-end',
                 f'{where}: action {a} after the end')
    after = world.flat(env.get_simulator_state().balloon_state)
    before.pop('cmd'), after.pop('cmd')
    rec.check(before == after, 'after-end-state', f'{where}: refused steps '
              f'changed the state {before} {after}')
    obs, info = env.reset(return_info=True)
    fresh(rec, env, obs, where)
    info_ok(rec, info, 'OK', dt.timedelta(), where + ' reset')
    d, _ = step(rec, env, act, where + ' then reset')
    rec.check(not d, 'reset-live', f'{where}: dead right after a reset')
  rec.check(n > 0, 'harness', f'{case}: the cause was never reached')


class Feat:
  """A feature constructor that records what it is shown."""

  def __init__(self, forecast, atmosphere):
    self.log = [('init', forecast, atmosphere)]

  def observe(self, o):
    self.log.append(('observe', world.flat(o.balloon_observation),
                     (o.wind_at_balloon.u.mps, o.wind_at_balloon.v.mps)))

  def get_features(self):
    self.log.append(('features',))
    return np.full(4, float(len(self.log)), np.float32)

  @property
  def observation_space(self):
    import gym
    return gym.spaces.Box(low=np.zeros(4, np.float32),
                          high=np.full(4, 1e9, np.float32))


class Render:
  render_modes = ['ansi', 'x']

  def __init__(self):
    self.log = []

  def reset(self):
    self.log.append('reset')

  def step(self, st):
    self.log.append(('step', st.balloon_state.time_elapsed))

  def render(self, mode):
    self.log.append(('render', mode))
    return 'pic ' + mode


def api(case, rec):
  env = world.make_env(3, case['wind'])
  rec.check(env.action_space.n == 3, 'actions', f'{env.action_space}')
  rec.check(tuple(env.reward_range) == (0.0, 1.0), 'range',
            f'{env.reward_range}')
  rec.check(env.unwrapped is env, 'unwrapped', 'unwrapped')
  with env as e:
    rec.check(e is env, 'context', 'with returns another object')
  for a, name in ((0, 'DOWN'), (1, 'STAY'), (2, 'UP')):
    env.reset()
    env.step(a)
    got = env.get_simulator_state().balloon_state.last_command.name
    rec.check(got == name, 'action-meaning', f'action {a} is {got}')
    rec.ev(outcome=name)
  for bad in (-1, 3, 7, 1.5, None, 'up'):
    before = world.flat(env.get_simulator_state().balloon_state)
    rec.raises((ValueError, TypeError, KeyError, AssertionError),
               lambda: env.step(bad), 'bad-action', f'action {bad!r}')
    rec.check(world.flat(env.get_simulator_state().balloon_state) == before,
              'bad-action-state', f'the refused action {bad!r} had an effect')
    rec.ev(outcome=repr(bad))
  for a in (np.int64(2), np.int32(0)):
    env.step(a)
    rec.check(env.get_simulator_state().balloon_state.last_command.value ==
              int(a), 'np-action', f'{a!r}')
  r = env.reset(return_info=True)
  rec.check(isinstance(r, tuple) and len(r) == 2, 'return-info', f'{r!r:.80}')
  info_ok(rec, r[1], 'OK', dt.timedelta(), 'reset')
  rec.check(isinstance(env.reset(), np.ndarray), 'return-obs', 'reset')
  rec.check(env.render() is None, 'no-renderer', 'render without a renderer')

  # the pieces given are the pieces used
  seen, rd = [], Render()

  def reward(st):
    seen.append((st, world.flat(st.balloon_state)))
    return 0.25
  env = world.make_env(5, case['wind'], reward_function=reward,
                       feature_constructor_factory=Feat, renderer=rd,
                       station_keeping_radius_km=70.)
  rec.check(env.radius.km == 70., 'radius', f'{env.radius.km}')
  rec.check(env.metadata.get('render.modes') == ['ansi', 'x'], 'metadata',
            f'{env.metadata}')
  for word in itertools.product(range(3), repeat=3):
    del seen[:], rd.log[:]
    obs = env.reset()
    fc = env.arena.feature_constructor
    st = env.get_simulator_state()
    rec.check([e[0] for e in fc.log] == ['init', 'observe', 'features'] and
              obs.tolist() == [3.] * 4, 'features-used', f'{fc.log}')
    rec.check(fc.log[0][1] is st.wind_field and fc.log[0][2] is st.atmosphere,
              'features-world', 'the features are built for another world')
    rec.check(rd.log == ['reset', ('step', dt.timedelta())], 'renderer-reset',
              f'{rd.log}')
    for i, a in enumerate(word):
      obs, rew, done, info = env.step(a)
      b = world.flat(env.get_simulator_state().balloon_state)
      rec.check(rew == 0.25 and len(seen) == i + 1 and seen[-1][1] == b,
                'reward-used', f'{word} step {i}: reward {rew} from '
                f'{seen[-1:]}')
      w = env.get_simulator_state().wind_field.get_ground_truth(
          env.arena.get_balloon_state().x, env.arena.get_balloon_state().y,
          env.arena.get_balloon_state().pressure,
          env.arena.get_balloon_state().time_elapsed)
      rec.check(fc.log[-2] == ('observe', b, (w.u.mps, w.v.mps)) and
                fc.log[-1] == ('features',) and
                obs.tolist() == [5. + 2 * i] * 4, 'features-step',
                f'{word} step {i}: {fc.log[-2:]} against {b}')
      rec.check(env.observation_space.contains(obs), 'space-used', f'{obs}')
      rec.check(rd.log[-1] == ('step', dt.timedelta(minutes=3 * (i + 1))),
                'renderer-step', f'{rd.log}')
      rec.trans()
    rec.check(len(rd.log) == 5 and env.render('x') == 'pic x' and
              rd.log[-1] == ('render', 'x'), 'render', f'{rd.log}')
    rec.ev(outcome=word)
    rec.trace()

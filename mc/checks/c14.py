"""C14: the reward, on a lattice of states and along every action word."""
import copy
import itertools
import math

from balloon_learning_environment.env import balloon_env
from balloon_learning_environment.env import simulator_data
from mc import world
from mc.ref import physics

PROP, LEVEL = 'C14', 'model_checking'
RULE = ('the reward of every state of a lattice (distance on, inside and '
        'outside the radius x bearing x command x pump power x sun x charge x '
        'reward parameters) against the documented formula; monotonicity over '
        'all neighbours; every action word up to a depth on the real '
        'environment, where each reward must be the formula applied to the '
        'state reached by that step.')
ASSUMPTIONS = ['points within rounding of a switch (radius, charge, sun '
               'against load) are decided only on exactly representable '
               'values']
DIST = [0.0, 1e-3, 10.0, 25.0, 45.0, 49.0, 49.999, 50.001, 50.5, 55.0, 60.0,
        75.0, 100.0, 150.0, 200.0, 250.0, 450.0, 1000.0, 5000.0]
EXACT = [(50, 0), (-50, 0), (0, 50), (0, -50), (30, 40), (-30, 40), (40, -30),
         (-14, -48), (48, 14)]
PUMP = [0.0, 50.0, 100.0, 101.0, 150.0, 200.0, 250.0, 299.0, 300.0, 301.0,
        400.0]
TIMES = [(2013, 3, 25, h, 0, 0) for h in (0, 5, 6, 9, 12, 18, 21)]
SOC = [0.0, 0.5, 0.98, 0.9899, 0.9901, 1.0]


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='lattice', t=i, s=j) for i in range(len(TIMES))
         for j in range(len(SOC))]
  out += [dict(kind='params', r=r) for r in (1.0, 10.0, 50.0, 80.0)]
  out += [dict(kind='words', seed=s, wind=w, depth=3 if q else 6, near=n)
          for s in range(3 if q else 6) for w in ('static', 'smooth')
          for n in (True, False)]
  out += [dict(kind='long', wind=w, n=700 if q else 3000)
          for w in ('static', 'smooth')]
  return out


def excess(b):
  s = physics.from_state(b)
  lat, lng = physics.offset_latlng(s['lat0'], s['lng0'], s['x'], s['y'])
  el = physics.sun(lat, lng, s['t'])[0]
  sun = physics.solar_power(el, s['p'])
  return sun > s['load_day'] and s['charge'] / s['cap'] > 0.99


def reward(b, radius=50.0, drop=0.4, half=100.0):
  d = math.hypot(b.x.meters, b.y.meters) / 1000
  r = 1.0 if d <= radius else drop * 2.0 ** (-(d - radius) / half)
  if b.last_command.name == 'DOWN' and not excess(b):
    r *= 0.95 - 0.3 * min(max((float(b.acs_power.watts) - 100) / 200, 0.), 1.)
  return r


def at(b, x, y):
  b.x, b.y = world.units.Distance(km=x), world.units.Distance(km=y)


def run(case, rec):
  {'lattice': lattice, 'params': params, 'words': words, 'long': long}[case['kind']](
      case, rec)
  rec.sample(case)


def sim(b):
  return simulator_data.SimulatorState(b, world.make_wind(),
                                       world.atmosphere(0))


def lattice(case, rec):
  f = balloon_env.perciatelli_reward_function
  W = world.units
  for p in (6500.0, 11000.0):
    b = world.state(5.0, 20.0, TIMES[case['t']], p)
    b.battery_charge = SOC[case['s']] * b.battery_capacity
    st = sim(b)
    rec.count(f'excess {excess(b)}')
    for cmd in world.ACTS:
      b.last_command = cmd
      for w in PUMP:
        b.acs_power = W.Power(watts=w)
        prev = None
        for d in DIST:
          for k in range(8):
            at(b, d * math.cos(k * math.pi / 4 + .1),
               d * math.sin(k * math.pi / 4 + .1))
            got = f(st)
            rec.ev(outcome=round(got, 9))
            rec.trans()
            rec.close(got, reward(b), 'value', lambda: f'{case} p={p} '
                      f'{cmd.name} pump {w} W {d} km bearing {k}', rel=1e-9)
            rec.check(0.0 <= got <= 1.0, 'range', f'{case}: reward {got}')
          # a step of the balloon moves the sun by far less than a switch
          if prev is not None and excess(b) == prev[1]:
            rec.check(got <= prev[0] + 1e-12, 'monotone-distance',
                      f'{case}: reward rises with distance at {d} km')
          prev = (got, excess(b))
          rec.state((case['t'], case['s'], p, cmd.name, w, d))
        for x, y in EXACT:
          at(b, float(x), float(y))
          got = f(st)
          rec.close(got, reward(b), 'on-radius', lambda: f'{case} {cmd.name} '
                    f'pump {w} exactly on the radius at {x},{y} km')
          rec.ev(outcome=round(got, 9))
  # the rest of the state is of no consequence
  b = world.state(5.0, 20.0, TIMES[case['t']], 8000.0)
  b.battery_charge = SOC[case['s']] * b.battery_capacity
  for cmd in world.ACTS:
    for d in (20.0, 120.0):
      b.last_command = cmd
      b.acs_power = W.Power(watts=220.)
      at(b, d * .6, d * .8)
      base = balloon_env.perciatelli_reward_function(sim(b))
      for name, v in (('superpressure', 10.0), ('superpressure', 2500.),
                      ('mols_air', 0.0), ('internal_temperature', 230.),
                      ('ambient_temperature', 240.), ('acs_mass_flow', -.3),
                      ('envelope_volume', 1500.),
                      ('power_load', W.Power(watts=999.)),
                      ('solar_charging', W.Power(watts=0.)),
                      ('solar_charging', W.Power(watts=999.)),
                      ('upwelling_infrared', 225.),
                      ('power_safety_layer_enabled', False)):
        c = copy.deepcopy(b)
        assert hasattr(c, name)
        setattr(c, name, v)
        got = balloon_env.perciatelli_reward_function(sim(c))
        rec.check(got == base, 'depends', f'{case}: the reward depends on '
                  f'{name}: {base} -> {got}')
        rec.ev(outcome=(case['t'], case['s'], cmd.name, d, name))


def params(case, rec):
  b = world.state(0., 0., (2013, 3, 25, 1, 0, 0), 8000.)
  st = sim(b)
  r = case['r']
  for drop in (0.1, 0.4, 1.0):
    for half in (1.0, 30.0, 100.0, 333.0):
      for cmd in world.ACTS:
        b.last_command = cmd
        b.acs_power = world.units.Power(watts=180.)
        for d in [x * r for x in (0., .5, .999, 1.001, 1.5, 3.)] + DIST:
          if abs(d - r) < 1e-6:
            continue
          at(b, -d * .8, d * .6)
          got = balloon_env.perciatelli_reward_function(
              st, station_keeping_radius_km=r, reward_dropoff=drop,
              reward_halflife=half)
          rec.close(got, reward(b, r, drop, half), 'value', lambda: f'{case} '
                    f'drop {drop} half-life {half} {cmd.name} at {d} km')
          rec.ev(outcome=round(got, 9))
          rec.trans()


def words(case, rec):
  env = world.make_env(case['seed'], case['wind'])
  b = env.arena.get_balloon_state()
  if case['near']:
    d = 49.95
    at(b, d * .8, d * .6)
  b.battery_charge = (0.5 if case['seed'] % 2 else 1.0) * b.battery_capacity

  def go(env, word):
    _, r, done, _ = env.step(word[-1])
    s = env.get_simulator_state().balloon_state
    d = math.hypot(s.x.meters, s.y.meters) / 1000
    rec.trans()
    if abs(d - 50) > 1e-6:
      rec.close(r, reward(s), 'step-reward', lambda: f'{case} actions {word}')
    rec.state((case['seed'], case['wind'], case['near'], tuple(word)))
    rec.ev(outcome=round(r, 12))
    if done or len(word) >= case['depth']:
      rec.trace()
      return
    for a in range(3):
      go(copy.deepcopy(env) if a < 2 else env, word + [a])
  for a in range(3):
    go(copy.deepcopy(env), [a])
  custom_reward(case, rec)


def long(case, rec):
  """One environment used for a long time, over several episodes."""
  env = world.make_env(61, case['wind'])
  mine = world.make_env(62, case['wind'], reward_function=lambda s: 0.625)
  ends = [case['n'] * k // 7 for k in (1, 2, 3, 5)]
  for i in range(case['n']):
    _, r, done, _ = env.step((2, 1, 0, 1, 0)[i % 5])
    s = env.get_simulator_state().balloon_state
    rec.trans()
    if abs(math.hypot(s.x.meters, s.y.meters) / 1000 - 50) > 1e-6:
      rec.close(r, reward(s), 'step-reward', lambda: f'{case} step {i}')
    rec.ev(outcome=round(r, 12))
    _, r, done2, _ = mine.step((1, 0, 2)[i % 3])
    rec.check(r == 0.625, 'custom', lambda: f'{case}: step {i} is rewarded '
              f'with {r}, the configured function gives 0.625')
    if done or i in ends:
      env.reset()
    if done2 or i in ends:
      mine.reset()
  rec.trace()


def custom_reward(case, rec):
  # a custom reward function sees the state reached, once per step
  seen = []

  def custom(s):
    seen.append(world.flat(s.balloon_state))
    return 0.125 * len(seen)
  env = world.make_env(case['seed'], case['wind'], reward_function=custom)
  n0 = len(seen)
  rec.check(n0 == 0, 'custom', 'the reward function ran without a step')
  for i, a in enumerate((0, 2, 1)):
    _, r, _, _ = env.step(a)
    s = world.flat(env.get_simulator_state().balloon_state)
    rec.check(len(seen) == i + 1 and seen[-1] == s and r == 0.125 * (i + 1),
              'custom', f'{case}: the configured reward function was not '
              'applied to the state reached')

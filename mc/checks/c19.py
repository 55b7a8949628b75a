"""C19: observation features against an independent encoder and decoder."""
import copy
import datetime as dt
import itertools
import math

from balloon_learning_environment.env import features
from balloon_learning_environment.env import simulator_data
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import pressure_range_builder
from balloon_learning_environment.env.balloon import solar
from mc import world
from mc.checks import c10
from mc.checks import c18
from mc.ref import physics
import jax
import numpy as np

PROP, LEVEL = 'C19', 'model_checking'
RULE = ('every state of a lattice (each quantity over interior, boundary and '
        'saturating values, pairs of quantities crossed) and every history of '
        'observations up to a depth, with features read at every subset of '
        'its positions, compared with an independent encoder; the named view '
        'of every vector is decoded back to the state.')
ASSUMPTIONS = ['the accessible pressure range (C20) and the sun times (C11) '
               'are taken from the code, whose own checks decide them',
               'the angle of a wind weaker than 1e-3 m/s is not decided']
UTC = dt.timezone.utc
T0 = dt.datetime(2012, 5, 6, 7, 8, tzinfo=UTC)
LEVELS = [5000. + 50. * i for i in range(181)]


class Const(wind_field.WindField):
  """A forecast given by a function of pressure (and hours)."""

  def __init__(self, fn, timed=False):
    super().__init__()
    self.fn, self.timed = fn, timed

  def reset_forecast(self, key, date_time):
    pass

  def get_forecast(self, x, y, pressure, elapsed_time):
    u, v = (self.fn(pressure, elapsed_time.total_seconds() / 3600)
            if self.timed else self.fn(pressure))
    return world.wind(u, v)


def swirl(p):
  a = p / 1500.0
  return 15 * math.sin(a) + 2, 9 * math.cos(1.7 * a) - 3


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='pressure', part=i, fine=not q) for i in range(6)]
  out += [dict(kind='place', part=i) for i in range(6)]
  out += [dict(kind='sun', lat=lat, lng=lng, step=60 if q else 15)
          for lat, lng in ((0., 0.), (10., 100.), (-9., -170.), (3., 175.))]
  out += [dict(kind='flags', t=t) for t in range(4)]
  out += [dict(kind='winds', w=i) for i in range(6)]
  out += [dict(kind='history', first=i, depth=3 if q else 4) for i in range(5)]
  out += [dict(kind='named')]
  return out


def cycle(b):
  sr, ss = solar.get_next_sunrise_sunset(b.latlng, b.date_time)
  day = dt.timedelta(days=1)
  t = b.date_time
  if ss < sr:
    return math.pi * ((t - (sr - day)) / (ss - (sr - day)))
  return math.pi + math.pi * ((t - (ss - day)) / (sr - (ss - day)))


def sat(x, lo, hi):
  return min(max((x - lo) / (hi - lo), 0.0), 1.0)


def ambient(b):
  """The sixteen ambient features."""
  s = physics.from_state(b)
  lat, lng = physics.offset_latlng(s['lat0'], s['lng0'], s['x'], s['y'])
  el = physics.sun(lat, lng, s['t'])[0]
  soc = s['charge'] / s['cap']
  c = cycle(b)
  d = math.hypot(s['x'], s['y']) / 1000
  ratio = (s['p'] + max(s['sp'], 0.)) / s['p']
  paused = any(getattr(b, n + '_safety_layer').navigation_is_paused
               for n in ('power', 'envelope', 'altitude'))
  head = ((-s['x'] / 1000 / d, -s['y'] / 1000 / d) if d else (None, None))
  excess = physics.solar_power(el, s['p']) > s['load_day'] and soc > .99
  return [sat(s['p'], 5000., 14000.), soc, sat(el, -90., 90.), math.sin(c),
          math.cos(c), head[0], head[1], d / (d + 250.),
          float(s['last'] == 'UP'), float(s['last'] == 'STAY'),
          float(s['last'] == 'DOWN'), float(paused), float(not paused),
          float(excess), sat(c10.ref_budget(ratio, soc), 100., 300.), ratio]


NAMES = ['pressure', 'charge', 'sun elevation', 'sin day cycle',
         'cos day cycle', 'sin heading', 'cos heading', 'distance', 'was up',
         'was stay', 'was down', 'paused', 'not paused', 'excess', 'descent '
         'cost', 'pressure ratio']


def nearest(p):
  g = (min(max(p, 5000.), 14000.) - 5000.) / 50.
  return {int(math.floor(g + .5)), int(math.ceil(g - .5))}


def compare(rec, v, b, atm, ref, where):
  """v: feature vector; b: balloon state; ref: c18.Ref belief."""
  rec.trans()
  rec.check(isinstance(v, np.ndarray) and v.shape == (1099,) and
            v.dtype == np.float32, 'shape', f'{where}: {type(v)}')
  want = ambient(b)
  for i, w in enumerate(want):
    if w is None:
      continue
    rec.check(abs(float(v[i]) - w) < 2e-6 + 1e-6 * abs(w), 'ambient-' +
              NAMES[i].replace(' ', '-'), lambda: f'{where}: {NAMES[i]} is '
              f'{v[i]!r}, expected {w!r}')
  if want[5] is None:
    rec.check(abs(v[5] ** 2 + v[6] ** 2 - 1) < 1e-5, 'heading-unit', where)
  x, y = b.x.meters, b.y.meters
  t = b.time_elapsed.total_seconds()
  mean, dev = ref.query([(x, y, p, t) for p in LEVELS])
  rng = pressure_range_builder.get_pressure_range(b, atm)
  p = float(b.pressure)
  levels = nearest(p)
  cand = []
  for lev in levels:
    cand.append(column(v, mean, dev, rng, lev, x, y))
    if cand[-1] is None:
      break
  rec.check(any(c is None for c in cand), 'column', lambda: f'{where}: '
            f'{cand[0]}')


def column(v, mean, dev, rng, lev, x, y):
  """None if the wind column matches with the balloon at level lev."""
  w = v[16:].reshape(361, 3).astype(float)
  d = math.hypot(x, y)
  for k in range(361):
    i = k - 180 + lev          # level index of this slot
    un = not 0 <= i < 181
    if not un:
      p = LEVELS[i]
      if (abs(p - rng.min_pressure) < 1e-6 or
          abs(p - rng.max_pressure) < 1e-6):
        continue
      un = not rng.min_pressure <= p <= rng.max_pressure
    if un:
      if tuple(w[k]) != (0., 1., 1.):
        return f'slot {k} (out of reach) holds {w[k]}'
      continue
    u0, v0 = mean[i]
    mag = math.hypot(u0, v0)
    if abs(w[k, 0] - dev[i]) > 2e-5:
      return f'slot {k} ({p} Pa): uncertainty {w[k, 0]}, expected {dev[i]}'
    if abs(w[k, 2] - mag / (mag + 30)) > 2e-5:
      return f'slot {k} ({p} Pa): magnitude {w[k, 2]}, wind {mag}'
    if d < 1e-5:
      ang, tol = 0.0, 1e-9
    elif mag < 1e-9:
      ang, tol = 1.0, 1e-6
    elif mag < 1e-3 or d < 1e-2:
      continue
    else:
      a = math.atan2(v0, u0) - math.atan2(-y, -x)
      ang = abs(math.atan2(math.sin(a), math.cos(a))) / math.pi
      # directions are regularised by 1e-5
      e = 3e-5 * (1 / mag + 1 / d) + 2e-5 / max(mag, 1e-3)
      tol = 1e-4 + min(math.sqrt(2 * e), e / max(
          abs(math.sin(ang * math.pi)), 1e-9)) / math.pi
    if abs(w[k, 1] - ang) > tol:
      return f'slot {k} ({p} Pa): angle {w[k, 1]}, expected {ang}'
  return None


def decode(rec, v, b, where):
  """The named view gives back what the state had."""
  n = features.NamedPerciatelliFeatures(v)
  p = float(b.pressure)
  if 5000. <= p <= 14000.:
    rec.check(abs(n.balloon_pressure - p) < 0.01, 'named-pressure',
              f'{where}: decoded pressure {n.balloon_pressure}, was {p}')
  a = ambient(b)
  for name, i in (('battery_charge', 1), ('solar_elevation', 2),
                  ('sin_normalized_solar_cycle', 3),
                  ('cos_normalized_solar_cycle', 4),
                  ('sin_heading_to_station', 5), ('cos_heading_to_station', 6),
                  ('distance_to_station', 7), ('navigation_paused', 11),
                  ('navigation_enabled', 12), ('has_excess_energy', 13),
                  ('descent_cost', 14), ('internal_pressure_ratio', 15)):
    if a[i] is not None:
      rec.check(abs(float(getattr(n, name)) - a[i]) < 1e-5, 'named-' + name,
                lambda: f'{where}: {name} decodes as {getattr(n, name)}, '
                f'state has {a[i]}')
  rec.check(n.last_command == b.last_command, 'named-command',
            f'{where}: {n.last_command} for {b.last_command}')
  rec.check(n.wind_column_center() == 180 and n.num_pressure_levels == 361,
            'named-centre', f'{where}')
  w = v[16:].reshape(361, 3)
  for k in range(0, 361, 1):
    f = n.wind_at(k)
    ok = (f.uncertainty, f.bearing, f.magnitude) == tuple(w[k]) and (
        n.uncertainty(k), n.bearing(k), n.magnitude(k)) == tuple(w[k])
    valid = tuple(w[k].tolist()) != (0., 1., 1.)
    if not rec.check(ok and bool(n.level_is_valid(k)) == valid, 'named-wind',
                     f'{where}: level {k} reads {f}, vector has {w[k]}'):
      break
  for k in (-361, -1, 361, 1000):
    rec.raises(ValueError, lambda: n.wind_at(k), 'named-range',
               f'{where}: level {k}')
    rec.raises(ValueError, lambda: n.level_is_valid(k), 'named-range',
               f'{where}: level {k}')


def obs_of(b, u=3., v=-4.):
  return simulator_data.SimulatorObservation(b, world.wind(u, v))


def single(rec, b, where, fn=swirl, uv=(3., -4.), named=False):
  wf = Const(fn)
  atm = world.atmosphere(0)
  fc = features.PerciatelliFeatureConstructor(wf, atm)
  fc.observe(obs_of(b, *uv))
  ref = c18.Ref(wf)
  ref.observe((b.x.meters, b.y.meters, float(b.pressure),
               b.time_elapsed.total_seconds()) + tuple(uv))
  before = world.flat(b)
  v = fc.get_features()
  compare(rec, v, b, atm, ref, where)
  rec.check(world.flat(b) == before, 'side-effect', f'{where}: reading '
            'features changed the state')
  rec.check(bool((v == fc.get_features()).all()), 'twice', f'{where}: a '
            'second read differs')
  if named:
    decode(rec, v, b, where)
  sp = fc.observation_space
  rec.check(bool(sp.contains(v)), 'space', f'{where}: outside of the space')
  rec.ev(outcome=v[:16].tolist())
  rec.state((where,))


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def base(**kw):
  kw.setdefault('x', 30.)
  kw.setdefault('y', -110.)
  return world.state(**kw)


def do_pressure(case, rec):
  ps = [4000., 4999., 5000., 5001., 5024., 5026., 5049., 6500., 6524.9, 6525.1,
        7000., 8000., 8123., 9000., 9974., 9976., 10000., 11000., 11399.,
        13974., 13976., 13999., 14000., 14001., 15000.]
  if case['fine']:
    ps += [5000. + 25.5 * i for i in range(350)]
  for p in ps[case['part']::6]:
    b = base(p=8000.)
    b.pressure = p
    single(rec, b, f'pressure {p}', named=True)
    for sp in (-50., 0., 1., 123.4567, 300., 0.081 * p, 0.2 * p, .3 * p):
      b.superpressure = sp
      for soc in (0., .003, .29, .31, .45678, .99, .9901, .997, 1.):
        b.battery_charge = soc * b.battery_capacity
        if soc in (0., 1.) or sp in (300., 123.4567):
          single(rec, b, f'pressure {p} superpressure {sp} charge {soc}')


def do_place(case, rec):
  pts = [(0., 0.), (1e-9, 0.), (1e-3, 0.), (0., 50.), (50., 0.), (0., -50.),
         (-50., 0.), (250., 0.), (-300., 400.), (1e3, -1e3), (-7., -7.),
         (-7., 7.), (7., -7.), (5000., 1.), (12.345678, -7.891234),
         (-0.0123456, 0.6543)]
  for x, y in pts[case['part']::6]:
    for p in (6600., 9000., 11000.):
      b = world.state(2., 30., p=p, x=x, y=y)
      single(rec, b, f'at {x},{y} km {p} Pa', named=True)


def do_sun(case, rec):
  """Every part of the day, with the independent sun times."""
  lat, lng = case['lat'], case['lng']
  for day in ((2011, 1, 3), (2012, 6, 20), (2014, 12, 30)):
    t0 = dt.datetime(*day, tzinfo=UTC)
    el = lambda m: physics.sun(lat, lng, t0 + dt.timedelta(minutes=m))[0]
    cross = []
    prev = el(-1500)
    for m in range(-1499, 3000):
      e = el(m)
      if (prev < physics.MIN_EL) != (e < physics.MIN_EL):
        cross.append((m - 0.5, e > prev))
      prev = e
    for m in range(0, 1440, case['step']):
      when = t0 + dt.timedelta(minutes=m)
      b = world.state(lat, lng, day + (0, 0, 0), 8000.)
      b.date_time = when
      a = max(c for c in cross if c[0] < m)
      z = min(c for c in cross if c[0] >= m)
      f = (m - a[0]) / (z[0] - a[0])
      want = math.pi * f + (0.0 if a[1] else math.pi)
      got = features.compute_sunrise_time(b)
      diff = abs(math.atan2(math.sin(got - want), math.cos(got - want)))
      rec.check(diff < 0.03 and 0 <= got <= 2 * math.pi + 1e-6, 'day-cycle',
                f'{case} {when}: cycle {got}, expected about {want}')
      if m % 120 == 0:
        single(rec, b, f'{lat},{lng} {when}')
      rec.ev(outcome=(lat, lng, day, m))


def do_flags(case, rec):
  when = [(2013, 3, 25, 0, 0, 0), (2013, 3, 25, 12, 0, 0),
          (2013, 3, 25, 6, 5, 0), (2013, 3, 25, 17, 55, 0)][case['t']]
  for cmd in world.ACTS:
    for soc in (0.02, 0.5, 0.9899, 1.0):
      for trip in itertools.product((False, True), repeat=3):
        b = base(when=when, p=8000., charge=soc * 3058.56)
        b.last_command = cmd
        b.battery_charge = soc * b.battery_capacity
        atm = world.atmosphere(0)
        if trip[0]:
          b.power_safety_layer.get_action(
              world.C.DOWN, b.date_time.replace(hour=22),
              b.nighttime_power_load, 0.01 * b.battery_capacity,
              b.battery_capacity)
        if trip[1]:
          b.envelope_safety_layer.get_action(world.C.DOWN, 200.)
        if trip[2]:
          b.altitude_safety_layer.get_action(world.C.DOWN, atm, 13000.)
        n = sum(getattr(b, k + '_safety_layer').navigation_is_paused
                for k in ('power', 'envelope', 'altitude'))
        rec.count(f'{n} guards paused')
        single(rec, b, f'{when} {cmd.name} charge {soc} guards {trip}',
               named=True)


def do_winds(case, rec):
  """Winds of all strengths and bearings, calm and strong."""
  fns = [lambda p: (0., 0.), lambda p: (0.002, 0.), lambda p: (200., -300.),
         swirl, lambda p: (10 * math.cos(p / 60), 10 * math.sin(p / 60)),
         lambda p: (-8., 8.) if p < 9000 else (8., -8.)]
  fn = fns[case['w']]
  for x, y in ((10., 0.), (-60., 60.), (0., 0.), (5., -300.)):
    for uv in ((0., 0.), (5., 5.), (-40., 0.)):
      for p in (6600., 10000.):
        b = world.state(p=p, x=x, y=y)
        single(rec, b, f"wind field {case['w']} measured {uv} at {x},{y} km "
               f'{p} Pa', fn=fn, uv=uv)


def do_history(case, rec):
  atm = world.atmosphere(0)
  el = dt.timedelta
  seq = []
  for i, (x, y, p, h, uv) in enumerate([
      (30., -110., 8000., 0.0, (3., 4.)), (31., -112., 8100., 0.05, (-9., 2.)),
      (-200., 50., 7000., 1.0, (6., -6.)), (30., -110., 8000., 7.0, (1., 1.)),
      (0., 0., 9000., 31.0, (0., 12.))]):
    b = world.state(p=p, x=x, y=y)
    b.time_elapsed = el(hours=h)
    b.date_time = b.date_time + el(hours=h)
    seq.append((b, uv))
  # the forecast changes with time, beyond the first day
  drift = lambda p, h: (swirl(p)[0] + 0.4 * h, swirl(p)[1] - 0.3 * h)
  for tail in itertools.product(range(len(seq)), repeat=case['depth'] - 1):
    word = (case['first'],) + tail
    for mask in range(2 ** (len(word) - 1)):
      if mask not in (0, 1, 2 ** (len(word) - 1) - 1) and len(set(word)) < 3:
        continue
      wf = Const(drift, timed=True)
      fc = features.PerciatelliFeatureConstructor(wf, atm)
      ref = c18.Ref(wf)
      for j, i in enumerate(word):
        b, uv = seq[i]
        fc.observe(obs_of(b, *uv))
        ref.observe((b.x.meters, b.y.meters, float(b.pressure),
                     b.time_elapsed.total_seconds()) + uv)
        rec.trans()
        if j == len(word) - 1 or mask >> j & 1:
          v = fc.get_features()
          if j == len(word) - 1:
            compare(rec, v, b, atm, ref, f'history {word} read {mask:b}')
          v[:] = 7.0     # a vector handed out is the caller's
      rec.state((word, mask))
      rec.trace()
      rec.ev(outcome=(word, mask))


def do_named(case, rec):
  for n in (0, 16, 1098, 1100):
    rec.raises(AssertionError, lambda: features.NamedPerciatelliFeatures(
        np.zeros(n, np.float32)), 'named-size', f'a vector of {n} numbers')
  # single positions: every element is read by exactly its own name
  for k in range(0, 1099, 7):
    v = np.zeros(1099, np.float32)
    v[k] = 0.25
    n = features.NamedPerciatelliFeatures(v)
    for lev in range(361):
      f = n.wind_at(lev)
      want = [0., 0., 0.]
      if k >= 16 and (k - 16) // 3 == lev:
        want[(k - 16) % 3] = 0.25
      rec.check([f.uncertainty, f.bearing, f.magnitude] == want,
                'named-position', f'element {k} shows at level {lev}: {f}')
    rec.ev(outcome=k)
    rec.trans()
  for i in range(16):
    v = np.zeros(1099, np.float32)
    v[i] = 0.25
    n = features.NamedPerciatelliFeatures(v)
    rec.check(abs(n.balloon_pressure - (7250. if i == 0 else 5000.)) < 1e-3,
              'named-pressure', f'element {i}: {n.balloon_pressure}')
    if 8 <= i <= 10:
      want = [world.C.UP, world.C.STAY, world.C.DOWN][i - 8]
      rec.check(n.last_command == want, 'named-command', f'element {i}: '
                f'{n.last_command}')
  # real winds come back out of wind features
  for un, be, mag in itertools.product((0., .3, 1.), (0., .2, .5, 1.),
                                       (0., .1, .5, .9, .999)):
    f = features.PerciatelliWindFeature(un, be, mag)
    r = features.convert_wind_feature_to_real_wind(f)
    rec.check(r.uncertainty == un and abs(r.bearing - be * math.pi) < 1e-9 and
              abs(r.magnitude - 30 * mag / (1 - mag)) < 1e-6, 'real-wind',
              f'{f} -> {r}')
    rec.check(bool(f.is_valid_wind()) == ((un, be, mag) != (0., 1., 1.)),
              'valid', f'{f}')
    rec.ev(outcome=(un, be, mag))
  bad = features.PerciatelliWindFeature(0., 1., 1.)
  rec.check(not bad.is_valid_wind(), 'valid', f'{bad}')
  rec.raises(Exception, lambda: features.convert_wind_feature_to_real_wind(
      bad), 'real-wind', 'an out-of-reach level has no real wind')
  fc = features.PerciatelliFeatureConstructor(Const(swirl),
                                              world.atmosphere(0))
  for p, ok in ((4999.9, False), (5000., True), (14000., True),
                (14000.1, False), (9000., True)):
    rec.check(bool(fc.is_valid_pressure(p)) == ok, 'valid-pressure', f'{p}')

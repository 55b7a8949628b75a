"""C22: scaling transforms and samplers."""
import collections
import datetime as dt
import itertools
import math

from balloon_learning_environment.env import balloon_arena
from balloon_learning_environment.env import features
from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.utils import sampling
from balloon_learning_environment.utils import transforms
from balloon_learning_environment.utils import units
from mc import world
from mc.ref import physics
import jax
import numpy as np

PROP, LEVEL = 'C22', 'model_checking'
RULE = ('every transform on a lattice of values (inside, on and beyond its '
        'domain) x parameters, scalars and arrays, against plain arithmetic '
        'with its inverse; every sampler on every key of a range, repeated, '
        'with ranges, coverage of the range and independence over all keys; the '
        'start of the episode of every seed of a range (ranges, coverage, no '
        'two quantities drawn from one key).')
ASSUMPTIONS = ['distribution shapes are not claimed beyond range, coverage '
               'and distinctness']
UTC = dt.timezone.utc
XS = [0.0, 1e-12, 1e-3, 0.1, 0.25, 0.5, 1.0, 2.0, 49.999, 50.0, 99.9, 250.0,
      1e4, 1e9]


def cases(tier):
  q = tier == 'quick'
  n = 600 if q else 4000
  out = [dict(kind='arrays'), dict(kind='linear'), dict(kind='squash')]
  for s in ('location', 'time', 'pressure', 'infrared'):
    for part in range(2 if q else 8):
      out.append(dict(kind=s, lo=part * n, hi=(part + 1) * n))
  m = 150 if q else 600
  for part in range(4):
    out.append(dict(kind='starts', lo=part * m, hi=(part + 1) * m))
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def do_linear(case, rec):
  spans = [(0., 1.), (-90., 90.), (100., 300.), (5000., 14000.), (-3., -1.),
           (0., math.pi), (1e-6, 2e-6)]
  for lo, hi in spans:
    prev = None
    for f in (-10., -1., -1e-9, 0., 1e-9, .1, .25, .5, .75, .999, 1., 1 + 1e-9,
              2., 40.):
      x = lo + f * (hi - lo)
      y = transforms.linear_rescale_with_extrapolation(x, lo, hi)
      rec.close(y, (x - lo) / (hi - lo), 'linear', f'{x} in {lo}..{hi}',
                rel=1e-12)
      rec.close(transforms.undo_linear_rescale_with_extrapolation(y, lo, hi),
                x, 'linear-undo', f'{x} in {lo}..{hi}', rel=1e-9,
                abs_=1e-9 * (hi - lo))
      s = transforms.linear_rescale_with_saturation(x, lo, hi)
      rec.close(s, min(max((x - lo) / (hi - lo), 0.), 1.), 'saturate',
                f'{x} in {lo}..{hi}', abs_=1e-12)
      rec.check(isinstance(s, float) and 0. <= s <= 1., 'saturate-range',
                f'{x} in {lo}..{hi}: {s!r}')
      rec.check(prev is None or (y >= prev[0] and s >= prev[1]), 'monotone',
                f'{x} in {lo}..{hi}')
      prev = (y, s)
      rec.ev(outcome=(lo, hi, f))
      rec.trans()
    rec.close(transforms.linear_rescale_with_extrapolation(lo, lo, hi), 0.,
              'ends', f'{lo}..{hi}')
    rec.close(transforms.linear_rescale_with_extrapolation(hi, lo, hi), 1.,
              'ends', f'{lo}..{hi}')
    a = np.linspace(lo - 1, hi + 1, 37)
    keep = a.copy()
    got = transforms.linear_rescale_with_extrapolation(a, lo, hi)
    rec.check(bool(np.allclose(got, (keep - lo) / (hi - lo), rtol=1e-12)) and
              bool((a == keep).all()), 'linear-array', f'{lo}..{hi}')
    rec.state((lo, hi))
  for lo, hi in ((1., 1.), (2., 1.), (0., -1e-9)):
    for fn in (transforms.linear_rescale_with_extrapolation,
               transforms.undo_linear_rescale_with_extrapolation,
               transforms.linear_rescale_with_saturation):
      rec.raises(ValueError, lambda: fn(.5, lo, hi), 'span', f'{fn.__name__} '
                 f'on {lo}..{hi}')


def do_squash(case, rec):
  for c in (1e-6, 0.5, 1, 30, 250., 1e6):
    prev = -1.0
    for x in XS:
      y = transforms.squash_to_unit_interval(x, c)
      rec.close(y, x / (x + c), 'squash', f'{x} by {c}', rel=1e-12)
      rec.check(0. <= y <= 1. and y >= prev, 'squash-range', f'{x} by {c}: {y}')
      prev = y
      if y < 1 - 1e-9:
        rec.close(transforms.undo_squash_to_unit_interval(y, c), x,
                  'squash-undo', f'{x} by {c}', rel=1e-15 / (1 - y) + 1e-12,
                  abs_=1e-15 * (x + c)**2 / c)
      rec.ev(outcome=(c, x))
      rec.trans()
    a = np.array(XS)
    keep = a.copy()
    rec.check(bool(np.allclose(transforms.squash_to_unit_interval(a, c),
                               keep / (keep + c), rtol=1e-12)) and
              bool((a == keep).all()), 'squash-array', f'by {c}')
    for bad in (-1e-12, -1., -1e9):
      rec.raises(ValueError, lambda: transforms.squash_to_unit_interval(
          bad, c), 'squash-negative', f'{bad} by {c}')
      for i in range(3):
        arr = np.array([0., 1., 2.])
        arr[i] = bad
        rec.raises(ValueError, lambda: transforms.squash_to_unit_interval(
            arr, c), 'squash-negative', f'{arr} by {c}')
    for bad in (-1e-12, -1., 1.0, 1 + 1e-12, 5., float('nan')):
      rec.raises(ValueError, lambda: transforms.undo_squash_to_unit_interval(
          bad, c), 'undo-domain', f'undo {bad!r} by {c}')
    rec.state(c)
  for c in (0., -1., 0):
    rec.raises(ValueError, lambda: transforms.squash_to_unit_interval(1., c),
               'constant', f'squash by {c}')
    rec.raises(ValueError, lambda: transforms.undo_squash_to_unit_interval(
        .5, c), 'constant', f'undo by {c}')


def do_arrays(case, rec):
  """Arrays of every shape are transformed element by element."""
  base = np.array([0., 1e-9, .25, 1., 3., 9., 50., 249., 250., 1e4, 0., 7.])
  for shape in ((), (1,), (12,), (2, 6), (6, 2), (1, 12), (12, 1), (2, 3, 2),
                (0,), (3, 0)):
    n = int(np.prod(shape))
    for dtype in (np.float64, np.float32):
      for roll in range(3):
        a = np.roll(base, roll)[:n].reshape(shape).astype(dtype)
        if roll == 2:
          a = np.array(a, order='F')
        keep = a.copy()
        for c in (.5, 1., 250.):
          got = transforms.squash_to_unit_interval(a, c)
          want = keep.astype(float) / (keep.astype(float) + c)
          rec.check(np.shape(got) == shape and np.allclose(
              got, want, rtol=1e-6,
              atol=1e-12 if dtype == np.float64 else 3e-7) and np.array_equal(a, keep),
                    'squash-array', f'{shape} {dtype.__name__} by {c}')
          rec.trans()
        for lo, hi in ((0., 1.), (-3., 250.)):
          want = (keep.astype(float) - lo) / (hi - lo)
          got = transforms.linear_rescale_with_extrapolation(a, lo, hi)
          rec.check(np.shape(got) == shape and np.allclose(
              got, want, rtol=1e-6, atol=1e-7), 'linear-array',
                    f'{shape} {dtype.__name__} on {lo}..{hi}')
          back = transforms.undo_linear_rescale_with_extrapolation(got, lo, hi)
          rec.check(np.shape(back) == shape and np.allclose(
              back, keep, rtol=1e-5, atol=1e-4) and np.array_equal(a, keep),
                    'undo-array', f'{shape} {dtype.__name__} on {lo}..{hi}')
          rec.trans(2)
        rec.ev(outcome=(shape, dtype.__name__, roll))
        # one negative element anywhere
        for i in range(n):
          b = keep.copy()
          b.reshape(-1)[i] = -1e-3
          if b.size and b.min() < 0:
            rec.raises(ValueError, lambda: transforms.squash_to_unit_interval(
                b, 1.), 'squash-negative', f'{shape} element {i}')
    rec.state(shape)


def keys(case):
  return [jax.random.PRNGKey(k) for k in range(case['lo'], case['hi'])]


def spread(rec, name, vals, lo, hi, bins=10):
  """All values differ, lie in the range and cover it."""
  rec.check(all(lo <= v <= hi for v in vals), name + '-range',
            lambda: f'{name} outside {lo}..{hi}: {min(vals)}..{max(vals)}')
  rec.check(len(set(vals)) > 0.99 * len(vals), name + '-distinct',
            lambda: f'{name}: {len(set(vals))} values for {len(vals)} keys')
  top = collections.Counter(vals).most_common(1)[0]
  rec.check(top[1] < 4, name + '-atom', lambda: f'{name}: {top[0]} is drawn '
            f'{top[1]} times in {len(vals)}')
  for end in (min(vals), max(vals)):
    rec.check(vals.count(end) == 1, name + '-atom', lambda: f'{name}: the '
              f'outermost value {end} is drawn {vals.count(end)} times')
  hit = {min(int((v - lo) / (hi - lo) * bins), bins - 1) for v in vals
         if lo <= v <= hi}
  rec.check(len(hit) == bins, name + '-coverage', lambda: f'{name}: parts '
            f'{sorted(set(range(bins)) - hit)} of {bins} never drawn')
  h = [sum(lo + (hi - lo) * i / bins <= v < lo + (hi - lo) * (i + 1) / bins
           for v in vals) for i in range(bins)]
  e = len(vals) / bins
  rec.check(max(abs(x - e) for x in h) < 6 * math.sqrt(e) + 1,
            name + '-uniform', lambda: f'{name}: counts {h}')
  rec.ev(n=len(vals))
  for v in vals:
    rec.outcomes.add(repr(v))


def ends(rec, name, vals, lo, hi):
  """The range is drawn from up to its ends.

  That n uniform draws leave a gap of 21/n of the range at an end has
  probability 1e-9.
  """
  gap = 21. / len(vals) * (hi - lo)
  rec.check(min(vals) < lo + gap and max(vals) > hi - gap, name + '-ends',
            lambda: f'{name}: {min(vals)}..{max(vals)} of {lo}..{hi} in '
            f'{len(vals)} draws')


def rank_corr(a, b):
  ra, rb = np.argsort(np.argsort(a)), np.argsort(np.argsort(b))
  return abs(np.corrcoef(ra, rb)[0, 1])


def do_location(case, rec):
  pts = [sampling.sample_location(k) for k in keys(case)]
  again = [sampling.sample_location(k) for k in keys(case)[::7]]
  rec.check(all(a == b for a, b in zip(pts[::7], again)), 'repeat',
            'a location is not a function of its key')
  lat = [p.lat().degrees for p in pts]
  lng = [p.lng().degrees for p in pts]
  spread(rec, 'latitude', lat, -10. - 1e-6, 10. + 1e-6)
  spread(rec, 'longitude', lng, -175. - 1e-4, 175. + 1e-4)
  ends(rec, 'latitude', lat, -10., 10.)
  ends(rec, 'longitude', lng, -175., 175.)
  rec.check(rank_corr(lat, lng) < 0.5, 'independent', 'latitude and longitude '
            'are drawn together')
  rec.trans(len(pts))


def do_time(case, rec):
  lo, hi = units.datetime(2011, 1, 1), units.datetime(2014, 12, 31)
  ts = [sampling.sample_time(k) for k in keys(case)]
  rec.check(all(t.utcoffset() == dt.timedelta() for t in ts), 'time-zone',
            'a sampled time is not in UTC')
  spread(rec, 'time', [t.timestamp() for t in ts], lo.timestamp(),
         hi.timestamp())
  ends(rec, 'time', [t.timestamp() for t in ts], lo.timestamp(),
       hi.timestamp())
  again = [sampling.sample_time(k) for k in keys(case)[::7]]
  rec.check(ts[::7] == again, 'repeat', 'a time is not a function of its key')
  z = dt.timezone(dt.timedelta(hours=5))
  for a, d in ((units.datetime(2012, 2, 28), dt.timedelta(days=2)),
               (units.datetime(2000, 1, 1), dt.timedelta(seconds=1)),
               (units.datetime(2000, 1, 1), dt.timedelta(seconds=3)),
               (dt.datetime(2001, 5, 5, 5, tzinfo=z), dt.timedelta(hours=1)),
               (units.datetime(2001, 5, 5, 5, 6, 7, 500000),
                dt.timedelta(seconds=3)),
               (units.datetime(1999, 12, 31, 23), dt.timedelta(days=9000))):
    got = [sampling.sample_time(k, a, a + d) for k in keys(case)[:60]]
    rec.check(all(a <= t < a + d for t in got), 'time-range',
              lambda: f'{a} + {d}: {min(got)}..{max(got)}')
    if d <= dt.timedelta(seconds=3):
      rec.check(len(set(got)) == d.total_seconds(), 'time-coverage',
                f'{a} + {d}: {set(got)}')
    rec.check(all(t.utcoffset() == a.utcoffset() for t in got), 'time-zone',
              f'{a} + {d}')
    # each argument alone
    e = units.datetime(2014, 12, 31)
    g2 = [sampling.sample_time(k, begin_range=e - d) for k in keys(case)[:20]]
    rec.check(all(e - d <= t < e for t in g2), 'time-range', f'from {e - d}')
    rec.ev(outcome=(str(a), str(d)))
  rec.trans(len(ts))


def do_pressure(case, rec):
  vals = [sampling.sample_pressure(k) for k in keys(case)]
  spread(rec, 'pressure', vals, 6500., 11400.)
  ends(rec, 'pressure', vals, 6500., 11400.)
  rec.check(vals[::7] == [sampling.sample_pressure(k) for k in
                          keys(case)[::7]], 'repeat', 'pressure repeat')
  for a in range(6):
    atm = world.atmosphere(a)
    air = physics.Air(physics.alpha_of(float(atm.at_height(
        units.Distance(meters=0.)).temperature)))
    top = air.at_height(50000 * .3048)[1]
    vals = [sampling.sample_pressure(k, atm) for k in keys(case)[:200]]
    spread(rec, 'pressure', vals, 6500., top + 0.5)
    ends(rec, 'pressure', vals, 6500., top)
    rec.trans(len(vals))
    rec.state((a, round(top, 3)))


def do_infrared(case, rec):
  ks = keys(case)[:100]
  for name in ('logit_normal', 'inverse_lognormal'):
    vals = [sampling.sample_upwelling_infrared(k, name) for k in ks]
    rec.check(all(isinstance(v, float) and 225. <= v <= 315.001 for v in vals),
              'infrared-range', lambda: f'{name}: {min(vals)}..{max(vals)}')
    rep = [sampling.sample_upwelling_infrared(k, name) for k in ks[::9]]
    rec.check(vals[::9] == rep, 'repeat', f'{name} is not a function of key')
    if len(set(vals)) < 0.99 * len(vals):
      sat = sum(v == 315.0 for v in vals) > 0.9 * len(vals)
      rec.fail('infrared-saturated' if sat and name == 'logit_normal' else
               'infrared-distinct', f'{name}: {len(set(vals))} values for '
               f'{len(vals)} keys, {vals[:5]}...')
    rec.ev(n=len(vals), outcome=(name, len(set(vals))))
    rec.trans(len(vals))
  d = [sampling.sample_upwelling_infrared(k) for k in ks[:20]]
  rec.check(d == [sampling.sample_upwelling_infrared(k, 'logit_normal')
                  for k in ks[:20]], 'infrared-default', 'the default '
            'distribution is not the documented one')
  for bad in ('', 'normal', 'LOGIT_NORMAL', None):
    rec.raises(ValueError, lambda: sampling.sample_upwelling_infrared(
        ks[0], bad), 'infrared-name', f'distribution {bad!r}')


def ranks(xs):
  order = np.argsort(np.asarray(xs, dtype=float), kind='stable')
  r = np.empty(len(xs))
  r[order] = np.arange(len(xs))
  return r


def do_starts(case, rec):
  """How every seed of a range starts its episode."""
  arena = balloon_arena.BalloonArena(
      features.PerciatelliFeatureConstructor,
      wind_field.SimpleStaticWindField(), seed=case['lo'])
  rows = []
  for seed in range(case['lo'], case['hi']):
    arena.reset(seed)
    sim = arena.get_simulator_state()
    b = sim.balloon_state
    r = math.hypot(b.x.kilometers, b.y.kilometers)
    top = sim.atmosphere.at_height(units.Distance(feet=50_000.)).pressure
    where = f'seed {seed}'
    rec.check(0. <= r <= 200.0001, 'start-distance', lambda: f'{where}: {r}')
    rec.check(6499.9 <= b.pressure <= top + .5, 'start-pressure',
              lambda: f'{where}: {b.pressure}')
    lat, lng = (b.center_latlng.lat().degrees, b.center_latlng.lng().degrees)
    rec.check(abs(lat) <= 10.0001 and abs(lng) <= 175.0001, 'start-place',
              lambda: f'{where}: {b.center_latlng}')
    rec.check(units.datetime(2011, 1, 1) <= b.date_time
              <= units.datetime(2014, 12, 31), 'start-time',
              lambda: f'{where}: {b.date_time}')
    rec.check(225. <= b.upwelling_infrared <= 315.001, 'start-infrared',
              lambda: f'{where}: {b.upwelling_infrared}')
    rec.check(b.time_elapsed == dt.timedelta() and
              b.status == balloon.BalloonStatus.OK, 'start-clock', where)
    rows.append(dict(
        distance=r, angle=math.atan2(b.y.kilometers, b.x.kilometers), lat=lat,
        lng=lng, time=b.date_time.timestamp(),
        second=b.date_time.timestamp() % 86400,
        pressure=(b.pressure - 6500.) / (top - 6500.),
        atmosphere=float(sim.atmosphere.at_height(
            units.Distance(meters=0.)).temperature)))
    rec.ev(outcome=tuple(round(v, 6) for v in rows[-1].values()))
    rec.trans()
  cols = {k: [row[k] for row in rows] for k in rows[0]}
  span = dict(distance=(25., 130.), angle=(-2.5, 2.5), lat=(-8., 8.),
              lng=(-140., 140.), pressure=(.1, .9), second=(8600., 77800.))
  for k, vals in cols.items():
    rec.check(len(set(vals)) >= .98 * len(vals), 'start-distinct',
              lambda: f'{k}: {len(set(vals))} values for {len(vals)} seeds')
    if k in span:
      rec.check(min(vals) < span[k][0] and max(vals) > span[k][1],
                'start-coverage', lambda: f'{k}: {min(vals)}..{max(vals)}')
  for a, b in itertools.combinations(cols, 2):
    rho = float(np.corrcoef(ranks(cols[a]), ranks(cols[b]))[0, 1])
    rec.check(abs(rho) < .45, 'start-keys',
              lambda: f'{a} and {b} are drawn together: rank correlation {rho}')

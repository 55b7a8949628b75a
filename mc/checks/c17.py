"""C17: true wind = forecast + the noise field of the episode."""
import datetime as dt
import itertools
import math

from balloon_learning_environment.env import simplex_wind_noise
from balloon_learning_environment.env import wind_field
from mc import world
import jax
import numpy as np
import opensimplex

PROP, LEVEL = 'C17', 'model_checking'
RULE = ('a lattice of keys x positions x pressures x times (origin, far away, '
        'both signs, years of elapsed time, one axis at a time swept far '
        'beyond the flight envelope) on the static and on grid fields: '
        'true wind minus forecast against an independent sum of simplex '
        'harmonics; all operation words (queries, resets with two keys, '
        'queries of another instance) up to a depth; the static forecast at '
        'both sides of every level.')
ASSUMPTIONS = ['the OpenSimplex package itself is trusted']
UTC = dt.timezone.utc
T0 = dt.datetime(2012, 5, 6, 7, 8, tzinfo=UTC)
U = [(0.1445, 702.269, 2116.987, 2587.802, 245.0),
     (0.2766, 1483.570, 752.124, 646.208, 16.39),
     (0.2627, 276.810, 147.040, 587.702, 3.836),
     (0.2137, 10214.525, 1512.216, 965.629, 41.780),
     (0.1025, 181.286, 420.942, 8500.0, 245.0)]
V = [(0.2716, 1974.228, 2028.814, 713.697, 26.435),
     (0.2684, 699.738, 541.845, 632.116, 9.530),
     (0.2348, 217.750, 196.522, 686.825, 3.546),
     (0.1186, 47.500, 43.048, 66.553, 8.424),
     (0.1066, 3663.291, 232.023, 7499.741, 225.0)]
AMP = math.sqrt(1.02 / 0.0569)
BOUND = 0.0


class Noise:
  """Independent noise field of one wind-field key."""

  def __init__(self, key):
    nkey, _ = jax.random.split(key)
    self.parts = []
    for k, table in zip(jax.random.split(nkey), (U, V)):
      part = []
      for hk, row in zip(jax.random.split(k, 5), table):
        seed = int(jax.random.choice(hk, 1634753849))
        off = np.asarray(jax.random.uniform(hk, (4,)) * 2.0 - 1.0).tolist()
        part.append((opensimplex.OpenSimplex(seed=seed), off, row))
      self.parts.append(part)

  def __call__(self, x, y, p, hours):
    out = []
    for part in self.parts:
      w = [r[0] for _, _, r in part]
      s = sum(r[0] * g.noise4(x / r[1] + o[0], y / r[2] + o[1],
                              p / r[3] + o[2], hours / r[4] + o[3])
              if hasattr(g, 'noise4') else
              r[0] * g.noise4d(x / r[1] + o[0], y / r[2] + o[1],
                               p / r[3] + o[2], hours / r[4] + o[3])
              for g, o, r in part)
      out.append(AMP * s / sum(w) * math.sqrt(sum(w) / sum(a * a for a in w)))
    return out


def static(p):
  if p < 8000.:
    return 10., 0.
  if p < 10000.:
    return 0., 10.
  return (-10., 0.) if p < 12000. else (0., -10.)


def cases(tier):
  q = tier == 'quick'
  out = [dict(kind='lattice', key=k, wind=w, fine=not q)
         for k in range(8 if q else 32) for w in ('static', 'smooth')]
  out += [dict(kind='history', wind=w, first=i, depth=3 if q else 4)
          for w in ('static', 'smooth') for i in range(7)]
  out += [dict(kind='far', key=k, wind=w) for k in range(4 if q else 32)
          for w in ('static', 'smooth')]
  out += [dict(kind='static'), dict(kind='keys', n=40 if q else 200)]
  return out


def dist(km):
  return world.units.Distance(km=km)


def noise_of(wf, x, y, p, el):
  a = (dist(x), dist(y), p, el)
  t, f = wf.get_ground_truth(*a), wf.get_forecast(*a)
  return t.u.mps - f.u.mps, t.v.mps - f.v.mps


def run(case, rec):
  {'lattice': lattice, 'far': far, 'history': history, 'static': static_, 'keys': keys}[
      case['kind']](case, rec)
  rec.sample(case)


XS = [-900., -500., -123.45671, 0., 50.00317, 333.]
PS = [5000., 6500.4321, 8000., 9999.87, 14000., 3000.]
TS = [0., 0.05, 3.001257, 24., 47.9, 96.3, 1000.]


FAR = [(-6000., -2500., -1000.5, -999.5, 40.25, 999.5, 1000.5, 2500., 6000.),
       (-6000., -2500., -1000.5, -999.5, 40.25, 999.5, 1000.5, 2500., 6000.),
       (100., 1999., 4999., 9000.25, 14001., 20001., 40000., 101325.),
       (0.0001, 0.013, 11.99, 239.9, 241., 2400.5, 2.5e4, 1e5)]


def far(case, rec):
  """One axis at a time swept far beyond the flight envelope."""
  wf = world.make_wind(case['wind'])
  wf.reset(jax.random.PRNGKey(case['key']), T0)
  ref = Noise(jax.random.PRNGKey(case['key']))
  bases = [(12.53717, -77.04219, 8100.37, 5.2537),
           (-430.00613, 210.71377, 12300.613, 51.00131)]
  for base, axis in itertools.product(bases, range(4)):
    for v in FAR[axis]:
      q = list(base)
      q[axis] = v
      el = dt.timedelta(hours=q[3])
      got = noise_of(wf, *q[:3], el)
      want = ref(*q[:3], el.total_seconds() / 3600)
      rec.trans()
      rec.ev(outcome=(case['key'], axis, round(got[0], 6)))
      rec.check(abs(got[0] - want[0]) < 1e-5 and abs(got[1] - want[1]) < 1e-5,
                'value', lambda: f'{case} at (x km, y km, Pa, h) = {q}: '
                f'noise {got}, expected {want}')


def lattice(case, rec):
  wf = world.make_wind(case['wind'])
  wf.reset(jax.random.PRNGKey(case['key']), T0)
  ref = Noise(jax.random.PRNGKey(case['key']))
  xs = XS if case['fine'] else XS[1:5]
  ps = PS if case['fine'] else PS[1:5]
  ts = TS if case['fine'] else TS[::2]
  seen = []
  for x, y, p, h in itertools.product(xs, xs[::-1], ps, ts):
    el = dt.timedelta(hours=h)
    got = noise_of(wf, x, y, p, el)
    want = ref(x, y, p, el.total_seconds() / 3600)
    rec.trans()
    rec.ev(outcome=(case['key'], round(got[0], 6), round(got[1], 6)))
    rec.check(abs(got[0] - want[0]) < 1e-5 and abs(got[1] - want[1]) < 1e-5,
              'value', lambda: f'{case} at x={x} y={y} km p={p} Pa t={h} h: '
              f'noise {got}, expected {want}')
    rec.check(all(math.isfinite(v) and abs(v) < 10.0 for v in got), 'bounded',
              f'{case} noise {got}')
    seen.append(got)
  a = np.array(seen)
  rho = np.corrcoef(a[:, 0], a[:, 1])[0, 1]
  rec.check(abs(rho) < 0.95, 'components', f'{case}: the two components are '
            f'the same field (correlation {rho})')
  rec.state((case['key'], case['wind']))
  # continuity: 3 minutes, 100 m or 1 Pa change the wind a little only
  for x, y, p, h in itertools.product(xs[::2], xs[::2], ps[::2], ts[::2]):
    b = noise_of(wf, x, y, p, dt.timedelta(hours=h))
    for dx, dy, dp, dh in ((.1, 0, 0, 0), (0, .1, 0, 0), (0, 0, 1., 0),
                           (0, 0, 0, .05)):
      c = noise_of(wf, x + dx, y + dy, p + dp, dt.timedelta(hours=h + dh))
      rec.check(max(abs(b[0] - c[0]), abs(b[1] - c[1])) < 0.6, 'continuous',
                f'{case}: noise jumps from {b} to {c} at {x, y, p, h}')
      rec.ev()
  rec.trace()


def history(case, rec):
  """The noise does not depend on what was asked before."""
  pts = [(10.00317, -20.00459, 7000.713, 2.00123),
         (-400.12345, 90.6789, 12000.27, 30.0379)]
  ref = {k: Noise(jax.random.PRNGKey(k)) for k in (1, 2)}
  want = {(k, i): ref[k](x, y, p, h) for k in ref
          for i, (x, y, p, h) in enumerate(pts)}
  ops = [('q', 0), ('q', 1), ('f', 0), ('reset', 1), ('reset', 2),
         ('other', 1), ('col', 0)]
  wf, other = world.make_wind(case['wind']), world.make_wind(case['wind'])
  wf.reset(jax.random.PRNGKey(1), T0)
  other.reset(jax.random.PRNGKey(2), T0)
  cur = 1
  for tail in itertools.product(ops, repeat=case['depth'] - 1):
    word = (ops[case['first']],) + tail
    for name, i in word + (('q', 0), ('q', 1)):
      rec.trans()
      x, y, p, h = pts[i] if name != 'reset' else pts[0]
      el = dt.timedelta(hours=h)
      if name == 'q':
        got = noise_of(wf, x, y, p, el)
        rec.check(max(abs(got[0] - want[cur, i][0]),
                      abs(got[1] - want[cur, i][1])) < 1e-5, 'history',
                  f'{case} {word}: noise at {pts[i]} is {got}, expected '
                  f'{want[cur, i]}')
      elif name == 'f':
        wf.get_forecast(dist(x), dist(y), p, el)
      elif name == 'col':
        wf.get_forecast_column(dist(x), dist(y), [p, 9000.], el)
      elif name == 'reset':
        # the date is of no consequence for the noise
        wf.reset(jax.random.PRNGKey(i), T0 + dt.timedelta(days=len(word)))
        cur = i
      else:
        other.reset(jax.random.PRNGKey(2), T0)
        noise_of(other, x, y, p, el)
    rec.state(word)
    rec.trace()
    rec.ev(outcome=(case['wind'], word))


def static_(case, rec):
  wf = wind_field.SimpleStaticWindField()
  rec.raises(ValueError, lambda: wf.get_ground_truth(
      dist(0.), dist(0.), 9000., dt.timedelta()), 'unset',
             'true wind before reset')
  wf.reset(jax.random.PRNGKey(0), T0)
  ps = [1000., 5000., 14000., 20000.]
  for lvl in (8000., 10000., 12000.):
    ps += [lvl, np.nextafter(lvl, 0), np.nextafter(lvl, 1e9), lvl - 1, lvl + 1]
  ps = [float(p) for p in ps]
  for x, y, h in itertools.product((-100., 0., 700.), (-5., 80.), (0., 99.)):
    el = dt.timedelta(hours=h)
    col = wf.get_forecast_column(dist(x), dist(y), ps, el)
    for p, c in zip(ps, col):
      f = wf.get_forecast(dist(x), dist(y), p, el)
      rec.check((f.u.mps, f.v.mps) == static(p), 'static', f'static wind at '
                f'{p} Pa is {f}, expected {static(p)}')
      rec.check((c.u.mps, c.v.mps) == static(p), 'static-column',
                f'static column at {p} Pa is {c}')
      rec.ev(outcome=p)
      rec.trans()
  # vectors add by component and refuse anything else
  for u1, v1, u2, v2 in itertools.product((-3., 0., 2.5), repeat=4):
    s = world.wind(u1, v1).add(world.wind(u2, v2))
    rec.check((s.u.mps, s.v.mps) == (u1 + u2, v1 + v2), 'add', f'{s}')
    rec.ev()
  for bad in (1.0, None, (1., 2.), world.units.Velocity(mps=1.)):
    rec.raises(Exception, lambda: world.wind(1., 1.).add(bad), 'add-type',
               f'adding {bad!r} to a wind')
  rec.raises(RuntimeError, lambda: simplex_wind_noise.NoisyWindComponent('w'),
             'which', 'an unknown component')
  for which in 'uv':
    c = simplex_wind_noise.NoisyWindComponent(which)
    rec.raises(ValueError, lambda: c.get_noise(
        dist(0.), dist(0.), 9000., dt.timedelta()), 'unset', 'noise unset')


def keys(case, rec):
  """Different keys give different fields, zero on average."""
  rows = []
  for k in range(case['n']):
    wf = wind_field.SimpleStaticWindField()
    wf.reset(jax.random.PRNGKey(k), T0)
    rows.append([c for x, p in ((0., 7000.), (200., 11000.))
                 for c in noise_of(wf, x, -x, p, dt.timedelta(hours=5))])
    rec.ev(outcome=rows[-1])
    rec.trans()
  a = np.array(rows)
  rec.check(len({tuple(r) for r in a.round(9).tolist()}) == len(a), 'distinct',
            f'{case}: two keys share a noise field')
  m, s = a.mean(0), a.std(0)
  rec.check(bool(np.all(np.abs(m) < 4 * s / math.sqrt(len(a)) + .2)), 'mean',
            f'{case}: noise means over keys {m}')
  rec.check(bool(np.all((s > 0.3) & (s < 3))), 'spread', f'{case}: noise '
            f'deviations over keys {s}')

"""C16: the grid forecast against an independent multilinear reference."""
import datetime as dt
import itertools
import math

from balloon_learning_environment.env import generative_wind_field
from balloon_learning_environment.env import grid_based_wind_field
from balloon_learning_environment.generative import vae
from mc import world
import jax
import numpy as np

PROP, LEVEL = 'C16', 'model_checking'
RULE = ('for small and full-size fields with distinct random node values: '
        'every combination of node, midpoint, off-centre point, point beside '
        'a node and point outside along all four axes, over three reflections '
        'of the time axis, queried singly and in columns and compared with a '
        'multilinear reference; every order of short query, reset and '
        'foreign-instance sequences must leave the answers unchanged.')
ASSUMPTIONS = ['fields come from a synthetic sampler; tolerance is the single '
               'precision of the query point times the field variation']
SHAPES = [
    dict(latlng_slices=2, pressure_slices=2, time_slices=2),
    dict(latlng_slices=3, pressure_slices=4, time_slices=3,
         latlng_displacement_km=100.0, min_pressure_pa=6000.,
         max_pressure_pa=9000., time_horizon_hours=6),
    dict(latlng_slices=5, pressure_slices=3, time_slices=5,
         latlng_displacement_km=333.3, min_pressure_pa=5123.4,
         max_pressure_pa=13987.6, time_horizon_hours=24),
    dict(latlng_slices=4, pressure_slices=2, time_slices=4,
         latlng_displacement_km=77.7, time_horizon_hours=3),
    dict(),
]
UTC = dt.timezone.utc
T0 = dt.datetime(2012, 5, 6, 7, 8, tzinfo=UTC)


def cases(tier):
  q = tier == 'quick'
  out = []
  for i in range(len(SHAPES)):
    for period in range(4 if q else 7):
      out.append(dict(kind='lattice', shape=i, period=period, key=i + 1,
                      fine=not q))
  out += [dict(kind='lattice', shape=i, period=p, key=i + 1, fine=not q)
          for i in (0, 2) for p in (4, 5, 6, 9, 24, 51)]
  out += [dict(kind='history', shape=i) for i in (0, 1, 2)]
  out += [dict(kind='old', period=p) for p in range(4)]
  out += [dict(kind='mixed', part=i, depth=2 if q else 3) for i in range(8)]
  return out


def axis(lo, hi, n, fine, ends=True):
  """Nodes, off-centre points, neighbours of nodes and outside points."""
  step = (hi - lo) / (n - 1)
  pts = []
  idx = range(n) if n <= 5 else (0, 1, 2, n // 2, n - 3, n - 2, n - 1)
  for i in idx:
    x = lo + i * step
    pts += [x]
    if i < n - 1:
      pts += [x + step * f for f in ((.3, .5, .9) if fine else (.3, .7))]
    if fine or i in (0, n - 1):
      pts += [x + step * 1e-3, x - step * 1e-3]
  if ends:
    pts += [lo - step * 0.6, hi + step * 0.6, lo - 50 * step, hi + 50 * step]
  else:
    pts = [x for x in pts if lo <= x <= hi]
  return sorted(set(pts))


def ref(field, fs, x, y, p, hours):
  """Multilinear interpolation with edge values and time reflection."""
  H = float(fs['time_horizon_hours'])
  hours = hours % (2 * H)
  if hours > H:
    hours = 2 * H - hours
  out = np.zeros(2)
  d = fs['latlng_displacement_km']
  spec = [(x, -d, d, field.shape[0]), (y, -d, d, field.shape[1]),
          (p, fs['min_pressure_pa'], fs['max_pressure_pa'], field.shape[2]),
          (hours, 0.0, H, field.shape[3])]
  w = []
  for v, lo, hi, n in spec:
    v = min(max(v, lo), hi)
    g = (v - lo) / (hi - lo) * (n - 1)
    i = min(int(math.floor(g)), n - 2)
    f = g - i
    w.append([(i, 1 - f), (i + 1, f)])
  for a, b, c, e in itertools.product(*w):
    out += (a[1] * b[1] * c[1] * e[1]) * field[a[0], b[0], c[0], e[0]].astype(
        float)
  return out


def full(i):
  fs = vae.FieldShape(**SHAPES[i])
  names = ('latlng_displacement_km', 'min_pressure_pa', 'max_pressure_pa',
           'time_horizon_hours')
  dflt = dict(latlng_displacement_km=500., min_pressure_pa=5000.,
              max_pressure_pa=14000., time_horizon_hours=48, latlng_slices=21,
              pressure_slices=10, time_slices=9)
  return fs, dict(dflt, **SHAPES[i])


class Keep(world.SynthSampler):
  """Remembers a private copy of each field it hands out."""

  def sample_field(self, key, date_time):
    f = super().sample_field(key, date_time)
    self.kept = f.copy()
    return f


def make(i):
  fs, d = full(i)
  s = Keep('rough', fs)
  return grid_based_wind_field.GridBasedWindField(s), s, d


def dist(km):
  return world.units.Distance(km=km)


def run(case, rec):
  {'lattice': lattice, 'history': history, 'old': old,
   'mixed': mixed}[case['kind']](case, rec)
  rec.sample(case)


def scan(rec, wf, field, d, case, fine):
  D, H = d['latlng_displacement_km'], float(d['time_horizon_hours'])
  xs = axis(-D, D, d['latlng_slices'], fine)
  ps = axis(d['min_pressure_pa'], d['max_pressure_pa'], d['pressure_slices'],
            fine)
  ts = axis(0.0, H, d['time_slices'], fine, ends=False)
  if d['latlng_slices'] > 6:
    xs = [x for i, x in enumerate(xs) if i % 3 == 0 or x in (-D, 0., D)]
    ts = ts[::3] + ts[-1:]
  scale = 40.0
  ys, ps0 = xs, list(ps)
  for t in ts:
    # times are whole microseconds
    el = dt.timedelta(hours=case['period'] * H + t)
    hours = el.total_seconds() / 3600.0
    for x in xs:
      for y in ys:
        # columns are asked for as lists and as arrays, which stay the caller's
        ask = ps if (x == xs[0] or y == ys[-1]) else np.array(ps)
        col = wf.get_forecast_column(dist(x), dist(y), ask, el)
        rec.check(list(ask) == ps0, 'column-argument', lambda: f'{case}: the '
                  f'pressures asked about became {list(ask)[:6]}...')
        rec.check(len(col) == len(ps), 'column-length', f'{case}: {len(col)}')
        for p, c in zip(ps, col):
          want = ref(field, d, x, y, p, hours)
          got = np.array([c.u.mps, c.v.mps], float)
          rec.trans()
          if not rec.check(bool(np.all(np.abs(got - want) < 1e-5 * scale)),
                           'value', lambda: f'{case} at x={x} y={y} km '
                           f'p={p} Pa t={hours} h: {got}, expected {want}'):
            return False
        rec.ev(outcome=(x, y, round(hours, 6)), n=len(ps))
        # single queries, every third point of the column
        for k in range((hash((round(x), round(y))) % 3), len(ps), 3):
          s = wf.get_forecast(dist(x), dist(y), ps[k], el)
          rec.check(abs(s.u.mps - col[k].u.mps) < 1e-9 and
                    abs(s.v.mps - col[k].v.mps) < 1e-9, 'column-vs-point',
                    lambda: f'{case} x={x} y={y} p={ps[k]} t={hours}: {s} but '
                    f'{col[k]} in a column')
          rec.ev()
      rec.state((case.get('shape'), case['period'], x, t))
  return True


def lattice(case, rec):
  wf, s, d = make(case['shape'])
  zero = dt.timedelta()
  rec.raises(RuntimeError, lambda: wf.get_forecast(dist(0.), dist(0.), 9000.,
                                                   zero), 'unset', 'get_forecast before reset')
  rec.raises(RuntimeError, lambda: wf.get_forecast_column(
      dist(0.), dist(0.), [9000.], zero), 'unset', 'column before reset')
  wf.reset(jax.random.PRNGKey(case['key']), T0)
  field = s.kept
  if not scan(rec, wf, field, d, case, case['fine']):
    return
  rec.check(bool(np.array_equal(np.asarray(wf.field), field)), 'mutated',
            f'{case}: querying changed the stored field')
  # pressures in any container and order
  ps = [9000.0, 6000.0, 13000.0, 9000.0]
  want = [ref(field, d, 3.0, -4.0, p, 1.5) for p in ps]
  for box in (list, tuple, np.array):
    col = wf.get_forecast_column(dist(3.), dist(-4.), box(ps),
                                 dt.timedelta(hours=1.5))
    ok = all(abs(c.u.mps - w[0]) + abs(c.v.mps - w[1]) < 1e-3
             for c, w in zip(col, want))
    rec.check(ok and len(col) == 4, 'column-order', f'{case} {box}: {col}')
  rec.trace()


def history(case, rec):
  """Answers are a function of the query and the loaded field alone."""
  wf, s, d = make(case['shape'])
  other, s2, _ = make(case['shape'])
  H = d['time_horizon_hours']
  qs = [(3.0, -4.0, 8000.0, 0.7 * H), (-900., 20., 4000., 2.3 * H),
        (12., 900., 7000., H * 1.0), (0., 0., 20000., 1.4 * H)]
  ops = [('q', i) for i in range(len(qs))] + [
      ('col', 0), ('reset', 1), ('reset', 2), ('other', 3), ('truth', 1)]
  wf.reset(jax.random.PRNGKey(1), T0)
  other.reset(jax.random.PRNGKey(9), T0)
  cur = s.kept
  calls = len(s.calls)
  for word in itertools.product(ops, repeat=3):
    for name, i in word:
      rec.trans()
      x, y, p, h = qs[i]
      el = dt.timedelta(hours=h)
      if name == 'reset':
        wf.reset(jax.random.PRNGKey(i), T0 + dt.timedelta(days=i))
        calls += 1
        cur = s.kept
        rec.check(len(s.calls) == calls and s.calls[-1][1] == T0 +
                  dt.timedelta(days=i), 'sampler', f'{case}: the sampler was '
                  'not asked once for the given date')
      elif name == 'other':
        other.reset(jax.random.PRNGKey(i), T0)
        other.get_forecast(dist(x), dist(y), p, el)
      elif name == 'col':
        wf.get_forecast_column(dist(x), dist(y), [p, 5000., 9999.], el)
      elif name == 'truth':
        wf.get_ground_truth(dist(x), dist(y), p, el)
      else:
        got = wf.get_forecast(dist(x), dist(y), p, el)
        want = ref(cur, d, x, y, p, h)
        rec.check(abs(got.u.mps - want[0]) + abs(got.v.mps - want[1]) < 1e-3,
                  'history', f'{case} {word}: query {qs[i]} gives {got}, '
                  f'expected {want}')
    rec.state(word)
    rec.trace()
    rec.ev(outcome=(case['shape'], word))


BASE = dict(latlng_slices=3, pressure_slices=4, time_slices=3)
MIXED = [dict(BASE), dict(BASE, latlng_displacement_km=120.0),
         dict(BASE, min_pressure_pa=6512.3, max_pressure_pa=9001.7),
         dict(BASE, time_horizon_hours=10)]


def mixed(case, rec):
  """Fields alike in slices but not in extent, served side by side.

  One array of pressures is reused for all columns: its contents change in
  place between any two questions.
  """
  fields = []
  for i, spec in enumerate(MIXED):
    s = Keep('rough', vae.FieldShape(**spec))
    wf = grid_based_wind_field.GridBasedWindField(s)
    wf.reset(jax.random.PRNGKey(40 + i % 2), T0)
    fields.append((wf, s.kept, dict(full(4)[1], **spec)))
  ps = np.array([5000., 8000., 13987.])
  asks = [(i, v) for i in range(len(MIXED)) for v in range(4)]
  vals = [[5321.1, 8004.3, 13987.], [13987., 6000.7, 5001.],
          [9000., 9000.01, 8999.3], [5321.1, 8004.3, 13986.]]
  n = 0
  for word in itertools.product(asks, repeat=case['depth']):
    n += 1
    if n % 8 != case['part']:
      continue
    for i, v in word:
      wf, field, d = fields[i]
      ps[:] = vals[v]
      x, y, h = 31.7 - 55.5 * (v // 2), 301.3, 4.0 + (v // 2) / 3
      el = dt.timedelta(hours=h)
      col = wf.get_forecast_column(dist(x), dist(y), ps, el)
      one = wf.get_forecast(dist(x), dist(y), ps[1], el)
      for j, c in list(enumerate(col)) + [(1, one)]:
        want = ref(field, d, x, y, vals[v][j], el.total_seconds() / 3600)
        rec.check(abs(c.u.mps - want[0]) + abs(c.v.mps - want[1]) < 1e-3,
                  'mixed', lambda: f'{word}: field {i} {MIXED[i]} at {x, y} '
                  f'km, {vals[v][j]} Pa, {h} h gives {c}, expected {want}')
      rec.check(ps.tolist() == vals[v], 'column-argument', f'{ps}')
      rec.trans()
      rec.ev(outcome=(i, v))
    rec.state(word)
    rec.trace()


def old(case, rec):
  """The deprecated generator field shares the contract."""
  # its decoder is not needed here: any stored field will do
  wf = generative_wind_field.GenerativeWindField.__new__(
      generative_wind_field.GenerativeWindField)
  from balloon_learning_environment.models import models
  import flax
  real = models.load_offlineskies22
  models.load_offlineskies22 = lambda: flax.serialization.msgpack_serialize({})
  try:
    wf = generative_wind_field.GenerativeWindField()
  finally:
    models.load_offlineskies22 = real
  rec.raises(RuntimeError, lambda: wf.get_forecast(
      dist(0.), dist(0.), 9000., dt.timedelta()), 'unset', 'before reset')
  fs, d = full(4)
  field = world.SynthSampler('rough', fs).sample_field(
      jax.random.PRNGKey(4), T0)
  wf.field = field.copy()
  if scan(rec, wf, field, d, case, False):
    rec.trace()

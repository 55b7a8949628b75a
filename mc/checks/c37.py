"""C37: what a column of winds allows, and how fast a field blows."""
import itertools
import math

from balloon_learning_environment.utils import wind
import jax.numpy as jnp
import numpy as np

PROP, LEVEL = 'C37', 'model_checking'
RULE = ('columns: every multiset of three and four (thorough: five) winds out '
        'of a lattice, in several orders, with repeats, scaled and turned, as '
        'single and double precision, against the largest gap between '
        'directions; every segment: all columns along a line; tall: columns '
        'of 10 to 181 winds turning through every sector. speeds: fields of '
        'every small shape with one odd value at every place.')
ASSUMPTIONS = ['columns whose hull has the origin within 1e-6 of its edge, but '
               'not on a wind or between two opposite winds, are not judged']


def gap(col):
  """Largest angle between neighbouring directions; None if a wind is nil."""
  a = sorted(math.atan2(v, u) for u, v in col)
  return max([y - x for x, y in zip(a, a[1:])] + [a[0] + 2 * math.pi - a[-1]])


def line(col):
  """The winds lie on one line (exactly: for whole numbers)."""
  p = col[0]
  q = next((c for c in col if c != p), None)
  return q is None or all(
      (q[0] - p[0]) * (c[1] - p[1]) == (q[1] - p[1]) * (c[0] - p[0])
      for c in col)


def want(col):
  """True, False or None (not judged)."""
  nil = any(c == (0, 0) for c in col)
  if line(col):
    return nil or any(a[0] * b[1] == a[1] * b[0] and
                      a[0] * b[0] + a[1] * b[1] < 0
                      for a, b in itertools.combinations(col, 2))
  if nil:
    # a corner of the hull, or within it
    return True
  g = gap(col)
  if abs(g - math.pi) < 1e-9:
    return True  # between two opposite winds
  return g < math.pi


def cases(tier):
  q = tier == 'quick'
  n = 16
  out = [dict(kind='columns', size=s, part=i, of=n, q=q)
         for s in ((3, 4) if q else (3, 4, 5)) for i in range(n)]
  out += [dict(kind='lines', q=q), dict(kind='tall', q=q),
          dict(kind='speeds', q=q)]
  return out


def run(case, rec):
  globals()['do_' + case['kind']](case, rec)
  rec.sample(case)


def ask(rec, arr, w, where):
  keep = np.array(arr, copy=True)
  got = wind.is_station_keeping_winds(arr)
  rec.check(np.array_equal(keep, arr), 'argument', lambda: f'{where}: the '
            'column was changed')
  rec.check(bool(got) == w, 'station-keeping', lambda: f'{where}: {got}, '
            f'expected {w}')
  rec.trans()


def turn(col, a):
  c, s = math.cos(a), math.sin(a)
  return [(c * u - s * v, s * u + c * v) for u, v in col]


GRID = [(u, v) for u in (-2, -1, 0, 1, 2) for v in (-2, -1, 0, 1, 2)]
SMALL = [(u, v) for u in (-1, 0, 1) for v in (-1, 0, 1)] + [(3, 1), (-1, 2)]


def do_columns(case, rec):
  pts = GRID if case['size'] == 3 or not case['q'] else SMALL
  if case['size'] == 5:
    pts = SMALL
  for i, col in enumerate(itertools.combinations_with_replacement(
      pts, case['size'])):
    if i % case['of'] != case['part']:
      continue
    w = want(col)
    g = None if (0, 0) in col or line(col) else gap(col)
    where = f'winds {col}'
    edge = g is not None and abs(g - math.pi) < 1e-9
    nil = (0, 0) in col
    base = np.array(col, float)
    ask(rec, base, w, where)
    k = i // case['of'] % 4
    if k == 0:
      ask(rec, base[::-1], w, where + ' reversed')
    elif k == 1:
      ask(rec, base.astype(np.float32) * np.float32(.5), w, where + ' halved')
    elif k == 2 and not edge and not line(col) and not nil:
      ask(rec, np.array(turn(col, .7)) * 12.3, w, where + ' turned')
    elif k == 3 and not line(col):
      ask(rec, np.concatenate([base, base, base[:1]]) * 64., w,
          where + ' repeated')
    rec.count(str(w))
    rec.state(col)
    rec.ev(outcome=(col, w))
    rec.trace()


def do_lines(case, rec):
  """Winds along one line, through the origin and beside it, and few winds."""
  dirs = [(1, 0), (0, 1), (1, 1), (2, -1), (-3, 1)]
  steps = (-3, -1, 0, 1, 2) if case['q'] else (-4, -3, -1, 0, 1, 2, 5)
  for d in dirs:
    for off in ((0, 0), (d[1], -d[0]), (-5 * d[1], 5 * d[0])):
      for n in (1, 2, 3, 4):
        for ks in itertools.combinations_with_replacement(steps, n):
          col = tuple((off[0] + k * d[0], off[1] + k * d[1]) for k in ks)
          w = want(col)
          for dtype in (np.float64, np.float32):
            ask(rec, np.array(col, dtype), w, f'winds {col} as '
                f'{dtype.__name__}')
          rec.count(f'line {w}')
          rec.state(col)
          rec.ev(outcome=(col, w))
      rec.trace()


def do_tall(case, rec):
  """Columns whose winds turn through a sector, as real columns do."""
  for n in (10, 25, 181):
    for sector in range(10, 360, 10 if case['q'] else 2):
      for start in range(0, 360, 45 if case['q'] else 15):
        for shape in range(3):
          a = [math.radians(start + sector * i / (n - 1)) for i in range(n)]
          s = [(12., 3. + 10. * i / n, 1e-3 if i % 2 else 40.)[shape]
               for i in range(n)]
          col = [(x * math.cos(t), x * math.sin(t)) for x, t in zip(s, a)]
          g = gap(col)
          if abs(g - math.pi) < 1e-6:
            continue
          ask(rec, np.array(col), g < math.pi, f'{n} winds from {start} over '
              f'{sector} degrees, speeds {shape}')
          rec.state((n, sector, start, shape))
          rec.ev(outcome=(n, sector, start, shape))
    rec.trace()


def do_speeds(case, rec):
  shapes = itertools.product((1, 2, 3), (1, 2), (1, 3), (1, 2))
  for sh in shapes:
    f = np.zeros(sh + (2,), np.float32)
    for i, ix in enumerate(itertools.product(*map(range, sh))):
      f[ix] = (i % 5 - 2.25, 7.5 - i % 7)
    for ix in itertools.product(*map(range, sh)):
      for odd in ((0., 0.), (-300., 40.), (0., -1e-3)):
        g = f.copy()
        g[ix] = odd
        for arr in (g, jnp.asarray(g)):
          got = np.asarray(wind.wind_field_speeds(arr), float)
          ref = np.hypot(g[..., 0].astype(float), g[..., 1].astype(float))
          rec.check(got.shape == sh and np.allclose(got, ref, rtol=1e-5,
                                                    atol=1e-5), 'speeds',
                    f'shape {sh}, {odd} at {ix}: {got.ravel()[:4]}')
        m = float(wind.mean_speed_in_wind_field(g))
        rec.close(m, float(ref.mean()), 'mean-speed', f'shape {sh}, {odd} at '
                  f'{ix}', rel=1e-5, abs_=1e-6)
        rec.trans(3)
        rec.ev(outcome=(sh, ix, odd))
    rec.state(sh)
    rec.trace()

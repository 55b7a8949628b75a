"""C18: the wind belief against an exact Gaussian process posterior."""
import copy
import datetime as dt
import itertools
import math

from balloon_learning_environment.env import wind_field
from balloon_learning_environment.env import wind_gp
from mc import world
import jax
import numpy as np

PROP, LEVEL = 'C18', 'model_checking'
RULE = ('every word over (observe at one of several places, times and winds; '
        'query a point; query a column; reset) up to a depth on the real '
        'belief, each answer compared with an independently solved Gaussian '
        'process posterior of the measurements within the memory window; '
        'every order of the same measurements; long histories of a day; '
        'query times on both sides of the window edge.')
ASSUMPTIONS = ['NumPy linear algebra is trusted']
UTC = dt.timezone.utc
T0 = dt.datetime(2012, 5, 6, 7, 8, tzinfo=UTC)
H6 = 6 * 3600.0
# (x m, y m, p Pa, t s, u, v)
OBS = [(0., 0., 8000., 0., 3., -2.),
       (20013.71, -49871.3, 8301.93, 180.4, -7.0123, 4.4567),
       (-3e5, 1e5, 11000., 7200., 12., 12.), (0., 0., 8000., 0., 5., 1.),
       (1e3, 2e3, 9000., H6 + 400., -1., 6.),
       (15000.3, 9000.7, 8450.19, 1234.5, None, None)]  # as forecast
QRY = [(0., 0., 8000., 0.), (10037.1, 9871.9, 8123.45, 301.7),
       (1e4, -2e4, 9500., H6 + 200.), (0., 0., 8000., H6),
       (0., 0., 8000., 3 * H6)]
COL = [5000., 7900., 8000., 8050., 11000., 14000.]
MIXED = [8050.37, 14000., 5000., 8000., 8000., 7901.3, 11000.]


def cases(tier):
  q = tier == 'quick'
  n = len(OBS) + len(QRY) + 4
  out = [dict(kind='words', wind=w, first=i, second=j, depth=3 if q else 4)
         for w in ('static', 'smooth') for i in range(n)
         for j in ((None,) if q else range(n))]
  out += [dict(kind='orders', wind=w) for w in ('static', 'smooth')]
  out += [dict(kind='window', wind=w) for w in ('static', 'smooth')]
  out += [dict(kind='long', wind=w, n=200 if q else 480)
          for w in ('static', 'smooth')]
  out += [dict(kind='far', wind='static')]
  return out


def kern(a, b):
  s = np.array([357000., 357000., 326., 34560.])
  d = (a[:, None, :] - b[None, :, :]) / s
  return 12.96 * np.exp(-np.sqrt((d * d).sum(-1)))


def posterior(obs, q, forecast):
  """obs: rows (x, y, p, t, u, v) with errors; q: N x 4."""
  q = np.asarray(q, float)
  f = np.array([forecast(*r) for r in q])
  obs = [o for o in obs if abs(o[3] - q[0, 3]) < H6]
  if not obs:
    return f, np.ones(len(q))
  X = np.array([o[:4] for o in obs])
  Y = np.array([o[4:] for o in obs])
  K = kern(X, X) + 0.05 * np.eye(len(X))
  k = kern(q, X)
  sol = np.linalg.solve(K, np.concatenate([Y, k.T], 1))
  mean = k @ sol[:, :2]
  var = 12.96 - np.einsum('ij,ji->i', k, sol[:, 2:])
  return f + mean, var / 12.96


class Ref:

  def __init__(self, wf):
    self.reset(wf)

  def reset(self, wf):
    self.wf, self.obs = wf, []

  def forecast(self, x, y, p, t):
    w = self.wf.get_forecast(world.units.Distance(m=x),
                             world.units.Distance(m=y), float(p),
                             dt.timedelta(seconds=t))
    return w.u.mps, w.v.mps

  def observe(self, o):
    fu, fv = self.forecast(*o[:4])
    self.obs.append(o[:4] + (o[4] - fu, o[5] - fv))

  def query(self, q):
    return posterior(self.obs, q, self.forecast)


def do_observe(gp, o):
  gp.observe(world.units.Distance(m=o[0]), world.units.Distance(m=o[1]), o[2],
             dt.timedelta(seconds=o[3]), world.wind(o[4], o[5]))


def do_query(gp, q):
  return gp.query(world.units.Distance(m=q[0]), world.units.Distance(m=q[1]),
                  q[2], dt.timedelta(seconds=q[3]))


def same(rec, got, want, key, msg):
  m, d = np.asarray(got[0], float), np.asarray(got[1], float)
  wm, wd = want
  if not rec.check(m.shape == np.shape(wm) and d.shape == np.shape(wd), key,
                   lambda: f'{msg()}: shapes {m.shape} {d.shape}'):
    return False
  return rec.check(bool(np.all(np.abs(m - wm) < 1e-4)) and
                   bool(np.all(np.abs(d - wd) < 1e-5)), key,
                   lambda: f'{msg()}: mean {m.tolist()} uncertainty '
                   f'{d.tolist()}, expected {np.asarray(wm).tolist()} '
                   f'{np.asarray(wd).tolist()}')


_W = {}


def winds(kind):
  if kind not in _W:
    out = []
    for k in (1, 2):
      w = world.make_wind(kind)
      w.reset(jax.random.PRNGKey(k), T0)
      out.append(w)
    _W[kind] = out
  return _W[kind]


OPS = ([('o', i) for i in range(len(OBS))] + [('q', i) for i in
                                              range(len(QRY))] +
       [('col', 1), ('mixed', 1), ('reset', 0), ('reset', 1)])


def apply(rec, gp, ref, op, wf, msg):
  name, i = op
  rec.trans()
  if name == 'o':
    o = OBS[i]
    if o[4] is None:
      o = o[:4] + ref.forecast(*o[:4])
    do_observe(gp, o)
    ref.observe(o)
  elif name == 'q':
    g = do_query(gp, QRY[i])
    m, d = ref.query([QRY[i]])
    same(rec, g, (m[0], d[0]), 'point', msg)
  elif name in ('col', 'mixed'):
    x, y, _, t = QRY[i]
    q = np.array([(x, y, p, t) for p in (COL if name == 'col' else MIXED)])
    keep = q.copy()
    g = gp.query_batch(q)
    same(rec, g, ref.query(keep), 'column', msg)
    rec.check(bool((q == keep).all()), 'argument', lambda: f'{msg()}: the '
              'query array was changed')
    # an answer handed out is not touched by later calls
    g[0][:] = 99.
    g[1][:] = 99.
  else:
    gp.reset(wf[i])
    ref.reset(wf[i])


def run(case, rec):
  globals()[case['kind']](case, rec)
  rec.sample(case)


def words(case, rec):
  wf = winds(case['wind'])
  pre = [OPS[case['first']]]
  if case['second'] is not None:
    pre.append(OPS[case['second']])
  for tail in itertools.product(OPS, repeat=case['depth'] - len(pre)):
    word = pre + list(tail)
    gp, ref = wind_gp.WindGP(wf[0]), Ref(wf[0])
    for j, op in enumerate(word):
      apply(rec, gp, ref, op, wf, lambda: f"{case['wind']} after "
            f'{word[:j]}: {op}')
    # and a final look, so that every word ends in an observation of state
    apply(rec, gp, ref, ('q', 1), wf, lambda: f"{case['wind']} after {word}")
    rec.state((case['wind'], tuple(ref.obs)))
    rec.trace()
    rec.ev(outcome=(case['wind'], tuple(word)))


def orders(case, rec):
  wf = winds(case['wind'])
  obs = OBS[:4]
  q = np.array([(1e4, 1e4, p, 300.) for p in COL])
  base = None
  for perm in itertools.permutations(obs):
    for cut in range(len(perm) + 1):
      gp = wind_gp.WindGP(wf[0])
      for o in perm[:cut]:
        do_observe(gp, o)
      gp.query_batch(q)
      for o in perm[cut:]:
        do_observe(gp, o)
      m, d = gp.query_batch(q)
      if base is None:
        base = (m.copy(), d.copy())
      same(rec, (m, d), base, 'order', lambda: f'{case}: measurements in the '
           f'order {perm}, queried after {cut}')
      rec.ev(outcome=(case['wind'], perm, cut))
      rec.trans(6)
      rec.trace()


def window(case, rec):
  """Both sides of the edge of the memory window, before and after."""
  wf = winds(case['wind'])
  for t_obs in (0., 5000., 4 * H6):
    for delta in (-H6 - 1, -H6, -H6 + 1, -1., 0., 1., H6 - 1, H6, H6 + 1,
                  10 * H6):
      t = t_obs + delta
      if t < 0:
        continue
      for extra in (None, -100.0, 100.0):
        gp, ref = wind_gp.WindGP(wf[0]), Ref(wf[0])
        todo = [(100., -300., 8000., t_obs, 9., -9.)]
        if extra is not None and t_obs + extra >= 0:
          todo.append((500., 300., 8200., t_obs + extra, -4., 3.))
        for o in todo:
          do_observe(gp, o)
          ref.observe(o)
        for q in ([(0., 0., 8100., t)], [(0., 0., p, t) for p in COL]):
          same(rec, gp.query_batch(np.array(q)), ref.query(q), 'window',
               lambda: f'{case}: measured at {[o[3] for o in todo]} s, '
               f'queried at {t} s')
          rec.ev(outcome=(t_obs, delta, extra, len(q)))
          rec.trans()
      rec.state((t_obs, delta))


def long(case, rec):
  """A flight: one measurement every three minutes, a column at each."""
  wf = winds(case['wind'])
  gp, ref = wind_gp.WindGP(wf[0]), Ref(wf[0])
  for i in range(case['n']):
    t = 180.0 * i
    x, y = 9e4 * math.sin(i / 17), 4e4 * math.cos(i / 11)
    p = 8500 + 1500 * math.sin(i / 7)
    o = (x, y, p, t, 10 * math.sin(i / 5), 8 * math.cos(i / 3))
    do_observe(gp, o)
    ref.observe(o)
    rec.trans()
    if i % 8 and i not in (119, 120, 121, 122):
      continue
    q = [(x, y, pp, t) for pp in COL]
    same(rec, gp.query_batch(np.array(q)), ref.query(q), 'long',
         lambda: f'{case} step {i}')
    rec.state((case['wind'], i))
    rec.ev(outcome=(case['wind'], i))
  # the past can still be asked about
  for t in (0., 3600., H6, 90.0 * case['n']):
    q = [(0., 0., pp, t) for pp in COL]
    same(rec, gp.query_batch(np.array(q)), ref.query(q), 'past',
         lambda: f'{case} asked about {t} s')
  rec.trace()


def far(case, rec):
  """Uncertainty is a fraction of the prior, the belief relaxes with distance."""
  wf = winds('static')
  gp = wind_gp.WindGP(wf[0])
  do_observe(gp, OBS[0])
  prev = -1.0
  for k in range(60):
    m, d = do_query(gp, (4e4 * k, 0., 8000. + 20 * k, 60. * k))
    d = float(d)
    rec.check(0.0 <= d <= 1.0 + 1e-9 and d >= prev - 1e-9, 'relax',
              f'uncertainty {d} after {prev} going away from the measurement')
    prev = d
    rec.ev(outcome=k)
  rec.check(prev > 0.99, 'relax', f'far away uncertainty is only {prev}')

"""C12: the atmosphere."""
import math
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
import jax
import numpy as np
from mc.ref import physics

PROP, LEVEL = 'C12', 'model_checking'
RULE = ('for every key of a range: every altitude of a grid from -610 m to '
        '85 km and every layer boundary (one ulp below, at, above) is mapped '
        'to pressure and back and compared with an independent profile; the '
        'same from a pressure grid; queries outside; every order of resets '
        'of one instance against fresh instances.')
ASSUMPTIONS = ['keys outside the enumerated range draw from the same code '
               'path (one uniform number)']


def m(x):
  return units.Distance(meters=x)


def cases(tier):
  q = tier == 'quick'
  n = 64 if q else 1000
  return [dict(kind='draws', keys=[i, i + n // 16], n=600 if q else 4000)
          for i in range(0, n, n // 16)] + [dict(kind='reset'),
                                            dict(kind='spread', n=n)] + [
      dict(kind='extreme', among=2000 if q else 20000, part=i,
           n=600 if q else 4000) for i in range(4)]


def extreme(among, part):
  """The keys with the lowest and highest draws out of many."""
  ks = jax.vmap(jax.random.PRNGKey)(np.arange(among))
  u = np.asarray(jax.vmap(jax.random.uniform)(ks))
  order = [int(k) for k in np.argsort(u)]
  return (order[:6] + order[-6:])[part::4]


def alpha(at):
  return physics.alpha_of(float(at.at_height(m(0.0)).temperature))


def draw(k, n, rec):
  at = standard_atmosphere.Atmosphere(jax.random.PRNGKey(k))
  a = alpha(at)
  rec.check(-1e-9 <= a <= 1 + 1e-9, 'lapse', f'key {k}: lapse rates at {a} of '
            'the documented interval')
  air = physics.Air(a)
  hs = [-610.0 + i * 85610.0 / n for i in range(n)]
  for x in physics.LEVELS[1:-1]:
    hs += [math.nextafter(x, -1e9), x, math.nextafter(x, 1e9), x - 1., x + 1.]
  hs += [math.nextafter(85000., 0), 15240., 15250.]
  last = None
  for h in sorted(set(hs)):
    where = f'key {k} height {h!r}'
    v = at.at_height(m(h))
    T, p = air.at_height(h)
    rec.close(v.temperature, T, 'temperature', where, rel=1e-9)
    rec.close(v.pressure, p, 'pressure', where, rel=1e-9)
    rec.close(v.height.meters, h, 'height', where, abs_=1e-9)
    rec.close(v.density, p / (physics.R_AIR * T), 'density', where, rel=1e-9)
    if last is not None:
      rec.check(v.pressure < last[0] or h - last[1] < 1e-6, 'decreasing',
                f'{where}: pressure {v.pressure} not below {last}')
      rec.check(abs(v.temperature - last[2]) <= 0.0071 * (h - last[1]) + 1e-9,
                'continuous', f'{where}: temperature jumps from {last[2]} to '
                f'{v.temperature}')
      rec.trans()
    last = (v.pressure, h, v.temperature)
    b = at.at_pressure(float(v.pressure)) if h > -610 else None
    if b is not None:
      rec.close(b.height.meters, h, 'round-trip', where, rel=1e-9, abs_=1e-5)
      rec.close(b.temperature, v.temperature, 'round-trip-temperature', where,
                rel=1e-9)
      rec.close(b.density, v.density, 'round-trip-density', where, rel=1e-9)
      rec.close(b.pressure, v.pressure, 'round-trip-pressure', where, rel=0)
      rec.trace()
    rec.ev(outcome=(k, round(h, 1)))
  rec.state(round(a, 6))
  lo, hi = math.log(air.p[-1]), math.log(air.p[0])
  for i in range(1, n // 2):
    p = math.exp(lo + (hi - lo) * i / (n // 2))
    v = at.at_pressure(p)
    H, T = air.at_pressure(p)
    rec.close(v.height.meters, H, 'p-height', f'key {k} pressure {p}', rel=1e-9,
              abs_=1e-5)
    rec.close(v.temperature, T, 'p-temperature', f'key {k} pressure {p}')
    rec.close(at.at_height(v.height).pressure, p, 'p-round-trip',
              f'key {k} pressure {p}', rel=1e-9)
    rec.ev(outcome=(k, 'p', i))
  for h in (-610.001, -1e4, 85000.0, 85001., 1e9, float('nan')):
    rec.raises(AssertionError, lambda: at.at_height(m(h)), 'height-domain',
               f'key {k}: altitude {h}')
  for p in (0.0, -1.0, air.p[-1] * (1 - 1e-9), air.p[0] * (1 + 1e-9), 2e5,
            float('nan')):
    rec.raises(AssertionError, lambda: at.at_pressure(p), 'pressure-domain',
               f'key {k}: pressure {p}')


def run(case, rec):
  mk = lambda k: standard_atmosphere.Atmosphere(jax.random.PRNGKey(k))
  if case['kind'] == 'draws':
    for k in range(*case['keys']):
      draw(k, case['n'], rec)
  elif case['kind'] == 'extreme':
    for k in extreme(case['among'], case['part']):
      draw(k, case['n'], rec)
      # between the coldest and the warmest lapse the key decides linearly
      a = alpha(mk(k))
      u = float(jax.random.uniform(jax.random.PRNGKey(k)))
      rec.check(min(abs(a - u), abs(1 - a - u)) < 1e-5 or .02 < u < .98,
                'extremes', f'key {k} with draw {u}: lapse rates at {a} of '
                'the documented interval')
  elif case['kind'] == 'reset':
    probe = lambda at: [float(at.at_height(m(h)).pressure)
                        for h in (0., 16000., 18000., 30000., 84000.)] + [
                            at.at_pressure(q).height.meters
                            for q in (5000., 11000.)]
    # the first question after a reset is any of these
    ask = [lambda at, h=h: float(at.at_height(m(h)).pressure)
           for h in (0., 16000., 84000.)] + [
               lambda at, q=q: at.at_pressure(q).height.meters
               for q in (5000., 11000.)]
    for i, a in enumerate(ask):
      for b in ask:
        for k, l in ((0, 1), (1, 0), (1, 2), (2, 2)):
          one = mk(k)
          a(one), b(one), a(one)
          one.reset(jax.random.PRNGKey(l))
          rec.check(b(one) == b(mk(l)) and a(one) == a(mk(l)), 'reset-ask',
                    f'query {i} of key {k} is still answered after a reset '
                    f'with key {l}')
          rec.trans(2)
          rec.ev(outcome=('ask', i, k, l))
    # answers belong to whoever asked: changing them changes nothing
    for k in range(3):
      one, two = mk(k), mk(k)
      for _ in range(3):
        for q in (5000., 8000., 11000.5):
          v, w = one.at_pressure(q), two.at_pressure(q)
          rec.check(v == w, 'answers', f'key {k} pressure {q}: {v} but {w}')
          u = one.at_height(v.height)
          for a in (u, v):
            try:
              a.temperature += 7.0
              a.pressure *= 2.0
              a.density = -1.0
              a.height = m(1.0)
            except AttributeError:
              pass  # unchangeable answers cannot be shared to any harm
          rec.ev(outcome=('own', k, q))
          rec.trans()
    fresh = [probe(mk(k)) for k in range(3)]
    rec.check(len({tuple(f) for f in fresh}) == 3, 'distinct', 'keys 0..2 '
              'give the same atmosphere')
    # one instance under every order of resets, another one watching
    def walk(at, word):
      if len(word) == 4:
        rec.trace()
        return
      for k in range(3):
        at.reset(jax.random.PRNGKey(k))
        rec.check(probe(at) == fresh[k], 'reset', f'reset with key {k} after '
                  f'{word} differs from a new atmosphere with that key')
        rec.check(probe(other) == fresh[1], 'shared', 'resetting one '
                  'atmosphere changed another')
        rec.ev(outcome=(word, k))
        rec.trans()
        rec.state(k)
        walk(at, word + (k,))
    other = mk(1)
    walk(mk(0), ())
  else:
    al = [alpha(mk(k)) for k in range(case['n'])]
    rec.check(min(al) < 0.1 and max(al) > 0.9 and len(set(al)) > case['n'] // 2,
              'spread', f'draws cover only {min(al)}..{max(al)} of the '
              'documented interval of lapse rates')
    rec.ev(n=case['n'])
  rec.sample(case)

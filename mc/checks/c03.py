"""C03: altitude guard automaton."""
import itertools
from balloon_learning_environment.env.balloon import altitude_safety
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import standard_atmosphere
from balloon_learning_environment.utils import units
import jax
from mc import words

PROP, LEVEL = 'C03', 'model_checking'
RULE = ('every word of (altitude representative, requested command) up to the '
        'depth bound on a fresh guard, compared step by step with a 3-state '
        'reference; plus de Bruijn words on one guard, real atmospheres, and '
        'interleaved guards. distinct = distinct observation words.')
ASSUMPTIONS = ['altitudes between two representatives of the same side of '
               'all thresholds behave alike']
C = control.AltitudeControlCommand
ACTS = [C.DOWN, C.STAY, C.UP]
FT = 0.3048
EPS = 1e-6
# metres
ALT = [16000.0, 51000 * FT + EPS, 51000 * FT - EPS, 50700 * FT,
       50500 * FT + EPS, 50500 * FT - EPS, 50000 * FT + EPS, -1.0,
       50000 * FT - EPS, 49000 * FT]
# -1: exactly 50,000 feet (no rounding)


class Ref:
  def __init__(self):
    self.s = 'ok'

  def step(self, m, a):
    ft = 50000.0 if m < 0 else m / FT
    if ft < 50000:
      self.s = 'vlow'
    elif ft < 50500:
      self.s = 'low'
    elif ft < 51000:
      self.s = 'ok' if self.s == 'ok' else 'low'
    else:
      self.s = 'ok'
    out = a
    if self.s == 'vlow':
      out = C.UP
    elif self.s == 'low' and a == C.DOWN:
      out = C.STAY
    return out.name, self.s != 'ok'


class StubAtmosphere:
  """Maps 'pressure' straight to a chosen altitude."""

  def __init__(self, base):
    self.base, self.h = base, None

  def at_pressure(self, p):
    v = self.base.at_pressure(8000.0)
    h = units.Distance(feet=50000.0) if p < 0 else units.Distance(m=p)
    return standard_atmosphere.AtmosphericValues(h, v.temperature, v.pressure,
                                                 v.density)


_BASE = None


def stub():
  global _BASE
  if _BASE is None:
    _BASE = StubAtmosphere(
        standard_atmosphere.Atmosphere(jax.random.PRNGKey(0)))
  return _BASE


def cases(tier):
  d = 2 if tier == 'quick' else 3
  out = [dict(kind='words', first=[i, j], depth=d)
         for i in range(len(ALT)) for j in range(3)]
  out += [dict(kind='debruijn', n=3 if tier == 'quick' else 4)]
  out += [dict(kind='atmos', seed=s, depth=3 if tier == 'quick' else 4)
          for s in range(4 if tier == 'quick' else 8)]
  out += [dict(kind='mixed', depth=2 if tier == 'quick' else 3)]
  out += [dict(kind='interleave', depth=2 if tier == 'quick' else 3)]
  return out


def impl_of(layer):
  at = stub()

  def f(sym):
    m, a = sym
    r = layer.get_action(ACTS[a], at, m)
    return C(r).name, bool(layer.navigation_is_paused)
  return f


def mk_impl():
  return impl_of(altitude_safety.AltitudeSafetyLayer())


def mk_ref():
  r = Ref()
  return (lambda sym: r.step(sym[0], ACTS[sym[1]])), (lambda: r.s)


def run(case, rec):
  full = [(m, a) for m in ALT for a in range(3)]
  if case['kind'] == 'words':
    i, j = case['first']
    words.conform(rec, mk_impl, mk_ref, full, [(ALT[i], j)], case['depth'],
                  'automaton')
    rec.sample(dict(prefix=[ALT[i], j], depth=case['depth'] + 1))
    rec.outcomes.add(f'w{i},{j}')
  elif case['kind'] == 'debruijn':
    w = [full[k] for k in words.debruijn(len(full), case['n'])]
    ref, st = mk_ref()
    words.conform_word(rec, mk_impl(), ref, st, w, 'automaton-long')
    rec.sample(dict(debruijn=len(w)))
    rec.outcomes.add('db')
  elif case['kind'] == 'atmos':
    at = standard_atmosphere.Atmosphere(jax.random.PRNGKey(case['seed']))
    base = [49000, 49999.9, 50000.1, 50499.9, 50500.1, 50999.9, 51000.1, 60000]
    ps = {}
    for ft in base:
      # independent inversion: bisection on the forward map pressure->height
      lo, hi = 5000.0, 15000.0
      for _ in range(80):
        mid = (lo + hi) / 2
        if at.at_pressure(mid).height.meters / FT > ft:
          lo = mid
        else:
          hi = mid
      ps[ft] = (lo + hi) / 2
    for w in itertools.product(base, repeat=case['depth']):
      layer, ref = altitude_safety.AltitudeSafetyLayer(), Ref()
      for k, ft in enumerate(w):
        a = ACTS[(k + int(ft)) % 3] if k < len(w) - 1 else C.DOWN
        got = C(layer.get_action(a, at, ps[ft])).name, bool(
            layer.navigation_is_paused)
        want = ref.step(ft * FT, a)
        rec.trans()
        if got != want:
          rec.fail('real-atmosphere', f'altitudes {w[:k + 1]} ft, {a}: got '
                   f'{got}, expected {want}')
          break
      rec.trace()
      rec.ev(outcome=(w, got))
    rec.sample(dict(atmosphere=case['seed'], pressures=ps))
  elif case['kind'] == 'mixed':
    # the same pressures shown in different atmospheres (on one guard and on
    # successive guards): only the altitude counts
    ats = [standard_atmosphere.Atmosphere(jax.random.PRNGKey(s))
           for s in range(4)]
    ps = sorted(at.at_height(units.Distance(feet=ft)).pressure
                for at in ats for ft in (49990, 50250, 51010))
    h = {(i, p): at.at_pressure(p).height.meters
         for i, at in enumerate(ats) for p in ps}
    syms = sorted(h)
    for w in itertools.product(syms, repeat=case['depth']):
      layer, ref = altitude_safety.AltitudeSafetyLayer(), Ref()
      for k, (i, p) in enumerate(w):
        a = ACTS[(k + i) % 3] if k < len(w) - 1 else C.DOWN
        got = C(layer.get_action(a, ats[i], p)).name, bool(
            layer.navigation_is_paused)
        want = ref.step(h[i, p], a)
        rec.trans()
        if got != want:
          rec.fail('mixed-atmospheres', f'(atmosphere, pressure) {w[:k + 1]} '
                   f'at {h[i, p]} m, {a}: got {got}, expected {want}')
          break
      rec.trace()
      rec.ev(outcome=(w, got))
    rec.sample(dict(pressures=ps))
  else:
    # two guards used alternately do not influence one another
    al = [(m, 0) for m in (ALT[0], ALT[3], ALT[5], ALT[9])]
    for w1 in itertools.product(al, repeat=case['depth']):
      for w2 in itertools.product(al, repeat=case['depth']):
        i1, i2 = mk_impl(), mk_impl()
        (r1, _), (r2, _) = mk_ref(), mk_ref()
        for s1, s2 in zip(w1, w2):
          g = i1(s1), i2(s2)
          w = r1(s1), r2(s2)
          rec.trans(2)
          rec.check(g == w, 'interleaved', f'{w1} / {w2}: {g} != {w}')
        rec.trace()
        rec.ev(outcome=(w1, w2))

"""C04: envelope guard automaton."""
import itertools
import numpy as np
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import envelope_safety
from mc import words

PROP, LEVEL = 'C04', 'model_checking'
RULE = ('every word of (superpressure representative, requested command) up '
        'to the depth bound on a fresh guard for several burst limits, '
        'compared step by step with a 5-state reference; de Bruijn words on '
        'one guard; pairs of interleaved guards with different limits.')
ASSUMPTIONS = ['superpressures between two adjacent representatives behave '
               'alike; burst limits of at least 650 Pa (bands do not overlap)']
C = control.AltitudeControlCommand
ACTS = [C.DOWN, C.STAY, C.UP]
LIMITS = [2380.0, 900.0, 650.0, 2384.7, 1111.1]


def reps(limit):
  out = [-50.0, 0.0, (300 + limit - 300) / 2, limit, limit + 40.0]
  for t in (150.0, 250.0, 300.0, limit - 300, limit - 250, limit - 150):
    out += [float(np.nextafter(t, -1e9)), t]
  return sorted(set(out))


class Ref:
  def __init__(self, limit):
    self.s, self.limit = 'ok', limit

  def step(self, sp, a):
    L = self.limit
    if sp < 150:
      self.s = 'lowcrit'
    elif sp < 250:
      self.s = 'low'
    elif sp < 300:
      self.s = 'low' if self.s in ('low', 'lowcrit') else 'ok'
    elif sp < L - 300:
      self.s = 'ok'
    elif sp < L - 250:
      self.s = 'high' if self.s in ('high', 'highcrit') else 'ok'
    elif sp < L - 150:
      self.s = 'high'
    else:
      self.s = 'highcrit'
    if self.s in ('lowcrit', 'highcrit'):
      a = C.UP
    elif self.s in ('low', 'high') and a == C.DOWN:
      a = C.STAY
    return a.name, self.s != 'ok'


def mk_impl(limit):
  layer = envelope_safety.EnvelopeSafetyLayer(limit)

  def f(sym):
    r = layer.get_action(ACTS[sym[1]], sym[0])
    return C(r).name, bool(layer.navigation_is_paused)
  return f


def mk_ref(limit):
  r = Ref(limit)
  return (lambda sym: r.step(sym[0], ACTS[sym[1]])), (lambda: (limit, r.s))


def cases(tier):
  q = tier == 'quick'
  out = []
  for L in LIMITS:
    n = len(reps(L))
    out += [dict(kind='words', limit=L, first=i, depth=2, acts=3)
            for i in range(n) if not q or L == LIMITS[0]]
    out += [dict(kind='words', limit=L, first=i, depth=2 if q and L != LIMITS[0] else 3, acts=1)
            for i in range(n)]
    out.append(dict(kind='debruijn', limit=L, n=2 if q else 3))
  out.append(dict(kind='interleave', depth=2 if q else 3))
  return out


def run(case, rec):
  if case['kind'] == 'interleave':
    al = [(m, 0) for m in (10., 200., 275., 620., 1300.)]
    for w1 in itertools.product(al, repeat=case['depth']):
      for w2 in itertools.product(al, repeat=case['depth']):
        i1, i2 = mk_impl(2380.0), mk_impl(900.0)
        (r1, _), (r2, _) = mk_ref(2380.0), mk_ref(900.0)
        for s1, s2 in zip(w1, w2):
          g = i1(s1), i2(s2)
          w = r1(s1), r2(s2)
          rec.trans(2)
          rec.check(g == w, 'interleaved', f'{w1} / {w2}: {g} != {w}')
        rec.trace()
        rec.ev(outcome=(w1, w2))
    return
  L = case['limit']
  R = reps(L)
  full = [(m, a) for m in R for a in range(3)]
  if case['kind'] == 'words':
    al = full if case['acts'] == 3 else [(m, 0) for m in R]
    for a in range(case['acts']):
      words.conform(rec, lambda: mk_impl(L), lambda: mk_ref(L), al,
                    [(R[case['first']], a)], case['depth'], 'automaton')
    rec.sample(dict(limit=L, first=R[case['first']], depth=case['depth'] + 1))
    rec.outcomes.add(repr(case))
  else:
    w = [full[k] for k in words.debruijn(len(full), case['n'])]
    ref, st = mk_ref(L)
    words.conform_word(rec, mk_impl(L), ref, st, w, 'automaton-long')
    rec.outcomes.add(repr(case))

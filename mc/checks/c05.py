"""C05: power guard."""
import datetime as dt
import itertools
import s2sphere as s2
from balloon_learning_environment.env.balloon import control
from balloon_learning_environment.env.balloon import power_safety
from balloon_learning_environment.env.balloon import solar
from balloon_learning_environment.utils import units
from mc import words

PROP, LEVEL = 'C05', 'model_checking'
RULE = ('every word of (time advance, charge band, requested command) up to '
        'the depth bound on a fresh guard, from starts over latitudes, '
        'seasons and times of day; compared step by step with a reference '
        'that recomputes day/night from the start sun times. Charge bands are '
        'placed just below and above every threshold that applies at that '
        'instant. powers: words in which the night load and the capacity '
        'change from call to call.')
ASSUMPTIONS = ['sun times at the start are those of the sun model (C11)',
               'charges between adjacent representatives behave alike']
C = control.AltitudeControlCommand
ACTS = [C.DOWN, C.STAY, C.UP]
UTC = dt.timezone.utc
DAY = dt.timedelta(days=1)
HYST = dt.timedelta(minutes=30)
CAP = 3058.56
LOAD = 183.7
STEPS = [dt.timedelta(minutes=3), dt.timedelta(hours=1),
         dt.timedelta(hours=6), dt.timedelta(hours=29)]
BANDS = ['empty', 'below', 'above', 'soc-', 'soc+', 'full']


def starts(tier):
  lats = [0.0, 10.0, -7.5] if tier == 'quick' else [0., 10., -10., 5., -7.5]
  hours = [(0, 0), (5, 50), (6, 20), (12, 0), (17, 45), (20, 10)]
  days = [(2013, 3, 25), (2011, 12, 31)]
  if tier != 'quick':
    days += [(2014, 6, 21), (2012, 2, 28)]
  return [(la, lo, (*d, *h)) for la in lats for lo in
          ((0.0,) if tier == 'quick' else (0.0, 122.5))
          for d in days for h in hours]


class Ref:
  """Recomputes everything from the start sun times; only `paused` persists."""

  def __init__(self, sunrise, sunset):
    self.r, self.s, self.paused = sunrise + HYST, sunset, False

  @staticmethod
  def _next(base, t):
    if t <= base:
      return base
    k = (t - base) // DAY
    n = base + k * DAY
    return n if n >= t else n + DAY

  def needs(self, t, load=LOAD, cap=CAP):
    """Charge [Wh] below which the night is not survivable."""
    left = (self._next(self.r, t) - t).total_seconds() / 3600
    return load * left + 0.025 * cap

  def night(self, t):
    return not self._next(self.s, t) < self._next(self.r, t)

  def step(self, t, charge, a, load=LOAD, cap=CAP):
    if not self.night(t):
      if not (self.paused and charge < 0.05 * cap):
        self.paused = False
    elif charge < self.needs(t, load, cap):
      self.paused = True
    if self.paused and a == C.DOWN:
      a = C.STAY
    return a.name, self.paused


def charge_of(band, ref, t, load=LOAD, cap=CAP):
  n = min(max(ref.needs(t, load, cap), 1.0), cap - 1.0)
  return {'empty': 0.0, 'below': n - 0.01, 'above': n + 0.01,
          'soc-': 0.05 * cap - 1e-3, 'soc+': 0.05 * cap + 1e-3,
          'full': cap}[band]


# (night load, capacity): both are told at every call and may change.
POWERS = [(LOAD, CAP), (20.0, CAP), (LOAD, 700.0), (320.0, 9000.0)]


def cases(tier):
  q = tier == 'quick'
  out = [dict(start=s, kind='acts', depth=2) for s in starts(tier)]
  out += [dict(start=s, kind='down', depth=3 if q else 4)
          for s in starts(tier)]
  out += [dict(start=s, kind='fine') for s in starts(tier)]
  out += [dict(start=s, kind='powers', depth=2 if q else 3)
          for s in starts(tier)]
  return out


def run(case, rec):
  la, lo, when = case['start']
  t0 = dt.datetime(*when, tzinfo=UTC)
  ll = s2.LatLng.from_degrees(la, lo)
  sr, ss = solar.get_next_sunrise_sunset(ll, t0)
  cap = units.Energy(watt_hours=CAP)
  load = units.Power(watts=LOAD)

  def feed(layer, ref, t, band, a):
    ch = charge_of(band, ref, t)
    want = ref.step(t, ch, a)
    got = layer.get_action(a, t, load, units.Energy(watt_hours=ch), cap)
    rec.trans()
    rec.state((ref.paused, ref.night(t), case['start']))
    return (C(got).name, bool(layer.navigation_is_paused)), want

  if case['kind'] == 'fine':
    # one guard over four days at flight cadence, charge following a
    # scripted band that changes every 7 hours; all rotations of the script
    for rot in range(len(BANDS)):
      layer = power_safety.PowerSafetyLayer(ll, t0)
      ref = Ref(sr, ss)
      for k in range(4 * 480):
        t = t0 + dt.timedelta(minutes=3 * k)
        band = BANDS[(k // 140 + rot) % len(BANDS)]
        got, want = feed(layer, ref, t, band, ACTS[k % 3])
        if not rec.check(got == want, 'long-flight',
                         f'{case["start"]} at +{t - t0} charge {band}: {got}, '
                         f'expected {want}'):
          break
      rec.trace()
      rec.ev(outcome=(case['start'], rot))
    return
  if case['kind'] == 'powers':
    al = list(itertools.product((0, 1, 2), ('below', 'above', 'soc+'), POWERS))
    for w in itertools.product(al, repeat=case['depth']):
      layer, ref, t = fresh(ll, t0), Ref(sr, ss), t0
      for d, band, (watts, wh) in w:
        t = t + STEPS[d]
        ch = charge_of(band, ref, t, watts, wh)
        want = ref.step(t, ch, C.DOWN, watts, wh)
        got = layer.get_action(C.DOWN, t, units.Power(watts=watts),
                               units.Energy(watt_hours=ch),
                               units.Energy(watt_hours=wh))
        got = C(got).name, bool(layer.navigation_is_paused)
        rec.trans()
        if got != want:
          rec.fail('parameters', f'start {case["start"]} word {w} at {t}: got '
                   f'{got}, expected {want}')
          break
      rec.trace()
      rec.ev(outcome=None)
      rec.state((ref.paused, ref.night(t), watts, wh))
    rec.sample(case)
    return
  acts = range(3) if case['kind'] == 'acts' else (0,)
  al = list(itertools.product(range(len(STEPS)), BANDS, acts))
  for w in itertools.product(al, repeat=case['depth']):
    layer = fresh(ll, t0)
    ref, t = Ref(sr, ss), t0
    obs = []
    for d, band, a in w:
      t = t + STEPS[d]
      got, want = feed(layer, ref, t, band, ACTS[a])
      obs.append(got)
      if got != want:
        rec.fail('automaton', f'start {case["start"]} sunrise {sr} sunset '
                 f'{ss} word {w} at {t}: got {got}, expected {want}')
        break
    rec.trace()
    rec.ev(outcome=None)
    if len(rec.outcomes) < 4000:
      rec.outcomes.add(repr((case['start'], obs)))
  rec.sample(case)


_CACHE = {}


def fresh(ll, t0):
  """A pristine guard: one construction per start, copied per word."""
  import copy
  k = (ll.lat().degrees, ll.lng().degrees, t0)
  if k not in _CACHE:
    _CACHE[k] = power_safety.PowerSafetyLayer(ll, t0)
  return copy.deepcopy(_CACHE[k])

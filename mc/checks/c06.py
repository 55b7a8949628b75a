"""C06: the guards composed in flight."""
import copy
import datetime as dt
import itertools
from balloon_learning_environment.env.balloon import balloon
from balloon_learning_environment.env.balloon import solar
from mc import world
from mc.checks import c03, c04, c05
from mc.ref import physics

PROP, LEVEL = 'C06', 'model_checking'
RULE = ('(a) every word of (altitude band, superpressure band, charge band, '
        'command) up to the depth bound, by day and by night, with and '
        'without the power guard, on the real balloon: the command in force '
        '(seen through pump power and air flow), the recorded command and the '
        'paused flag are compared with three composed reference guards; '
        '(b) every word of unassisted 3-minute flight steps from starts close '
        'to each guard threshold.')
ASSUMPTIONS = ['command in force is DOWN iff the pump draws power, UP iff air '
               'flows out, else STAY', 'sun times of the start (C11)']
C = world.C
ALTS = {'safe': 56000., 'hyst': 50700., 'low': 50200., 'vlow': 49800.}
SPS = {'mid': 1000., 'lohyst': 275., 'low': 200., 'locrit': 100.,
       'hihyst': 2105., 'high': 2200., 'hicrit': 2300.}
CHARGES = {'full': 2900., 'poor': 120., 'mid': 1500.}


def in_force(b):
  if float(b.acs_power.watts) > 0:
    return 'DOWN'
  return 'UP' if float(b.acs_mass_flow) < 0 else 'STAY'


class Ref:
  def __init__(self, st):
    sr, ss = solar.get_next_sunrise_sunset(st.latlng, st.date_time)
    self.power = c05.Ref(sr, ss)
    self.env = c04.Ref(st.envelope_max_superpressure)
    self.alt = c03.Ref()
    self.enabled = st.power_safety_layer_enabled

  def step(self, b, alt_m, act):
    a = act
    if self.enabled:
      a = C[self.power.step(b['t'], b['charge'], a)[0]]
    a = C[self.env.step(b['sp'], a)[0]]
    a = C[self.alt.step(alt_m, a)[0]]
    paused = (self.power.paused or self.env.s != 'ok' or self.alt.s != 'ok')
    return a.name, paused


def pressure_at(atm, ft):
  h, _ = world.lift_dict(atm)
  lo, hi = 4000., 16000.
  for _ in range(60):
    m = (lo + hi) / 2
    lo, hi = (m, hi) if h(m) / 0.3048 > ft else (lo, m)
  return (lo + hi) / 2


def cases(tier):
  q = tier == 'quick'
  out = []
  for when in ((2013, 3, 25, 12, 0, 0), (2013, 3, 25, 22, 0, 0),
               (2013, 3, 25, 6, 5, 0)):
    for en in (True, False):
      for alt in ALTS:
        for sp in SPS:
          out.append(dict(kind='placed', when=when, enabled=en, first=[alt, sp],
                          depth=1 if q else 2))
  starts = []
  for ft in (50050., 50480., 50900., 51500.):
    starts.append(dict(ft=ft, when=(2013, 3, 25, 10, 0, 0)))
  for sp in (140., 240., 290., 2090., 2140., 2240.):
    starts.append(dict(ft=53000., sp=sp, when=(2013, 3, 25, 14, 0, 0)))
  for h, ch in ((17, 1900.), (21, 1900.), (23, 1500.), (3, 800.), (5, 250.),
                (6, 130.), (17, 2600.)):
    starts.append(dict(ft=54000., when=(2013, 3, 25, h, 40, 0), charge=ch))
  out += [dict(kind='flight', start=s, enabled=e, depth=4 if q else 5)
          for s in starts for e in (True, False)]
  return out


def step_and_check(rec, bal, ref, atm, act, D, where):
  h, _ = world.lift_dict(atm)
  s = physics.from_state(bal.state)
  want, paused = ref.step(s, h(s['p']), act)
  bal.simulate_step(world.wind(3., 1.), world.atmosphere(atm), act, D)
  b = bal.state
  got = in_force(b)
  rec.trans()
  if want == 'UP' and s['sp'] <= 0:
    want = 'STAY'  # nothing to vent
  ok = rec.check(got == want, 'command-in-force',
                 f'{where}: request {act.name} executed as {got}, expected '
                 f'{want}')
  rec.check(b.last_command == act, 'last-command',
            f'{where}: recorded {b.last_command}, requested {act}')
  rec.check(bool(b.navigation_is_paused) == paused, 'paused',
            f'{where}: paused {b.navigation_is_paused}, expected {paused}')
  # honest records: reported pump and flow are those of the command in force
  if got == 'DOWN':
    rec.check(100.0 - 1e-6 <= float(b.acs_power.watts) <= 400.0 + 1e-6 and
              float(b.acs_mass_flow) >= 0, 'records', f'{where}: pump '
              f'{b.acs_power.watts} flow {b.acs_mass_flow}')
  else:
    rec.check(float(b.acs_power.watts) == 0 and float(b.acs_mass_flow) <= 0,
              'records', f'{where}: pump {b.acs_power.watts} flow '
              f'{b.acs_mass_flow} while {got}')
  rec.state((want, paused, ref.env.s, ref.alt.s, ref.power.paused,
             ref.enabled))
  return ok


def run(case, rec):
  if case['kind'] == 'placed':
    atm = 0
    base = world.state(2.0, 10.0, case['when'], 6600.,
                       power_safety_layer_enabled=case['enabled'])
    ps = {k: pressure_at(atm, ft) for k, ft in ALTS.items()}
    D = dt.timedelta(seconds=10)
    sub = list(itertools.product(
        ALTS, ['mid', 'lohyst', 'hicrit'], ['full', 'poor'], [0, 2])
               if case['depth'] == 2 else itertools.product(
        ALTS, ['mid', 'lohyst', 'locrit', 'hihyst', 'hicrit'],
        ['full', 'poor'], range(3)))
    first = [(*case['first'], ch, 0) for ch in CHARGES]
    from balloon_learning_environment.utils import units
    for f in first:
      if case['depth'] == 2 and f[2] == 'mid':
        continue
      for w in itertools.product(sub, repeat=case['depth']):
        word = (f,) + w
        bal = balloon.Balloon(copy.deepcopy(base))
        ref = Ref0(base)
        for i, (al, sp, ch, a) in enumerate(word):
          bal.state.pressure = ps[al]
          bal.state.superpressure = SPS[sp]
          bal.state.battery_charge = units.Energy(watt_hours=CHARGES[ch])
          ok = step_and_check(rec, bal, ref, atm, world.ACTS[a], D,
                              f'{case["when"]} guard={case["enabled"]} '
                              f'{word[:i + 1]}')
          # placement may make the physics terminal; the guards are the topic
          bal.state.status = balloon.BalloonStatus.OK
          if not ok:
            break
        rec.trace()
        rec.ev()
    rec.outcomes.add(repr(case))
    rec.sample(case)
    return
  s = case['start']
  atm = 0
  base = world.state(2.0, 10.0, tuple(s['when']), pressure_at(atm, s['ft']),
                     power_safety_layer_enabled=case['enabled'],
                     **({'charge': s['charge']} if 'charge' in s else {}))
  if 'sp' in s:
    # gas amount that gives the wanted superpressure at this temperature
    p, T = base.pressure, base.internal_temperature
    vol = 1804. + 0.0199 * s['sp']
    base.mols_air = (p + s['sp']) * vol / (physics.R * T) - base.mols_lift_gas
    base.superpressure, base.envelope_volume = s['sp'], vol
  D = dt.timedelta(minutes=3)

  def walk(bal, ref, depth, word):
    if depth == 0 or bal.state.status != balloon.BalloonStatus.OK:
      rec.trace()
      rec.ev(outcome=(case['start'], word, bal.state.status.name))
      return
    for a in range(3):
      b, r = copy.deepcopy(bal), copy.deepcopy(ref)
      if step_and_check(rec, b, r, atm, world.ACTS[a], D,
                        f'{case} word {word + (a,)}'):
        walk(b, r, depth - 1, word + (a,))
  walk(balloon.Balloon(base), Ref(base), case['depth'], ())


_REF = {}


def Ref0(st):
  k = (st.date_time, st.power_safety_layer_enabled)
  if k not in _REF:
    _REF[k] = Ref(st)
  return copy.deepcopy(_REF[k])
